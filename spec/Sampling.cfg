SPECIFICATION Spec
INVARIANT Design
INVARIANT Emitted
CHECK_DEADLOCK FALSE
