SPECIFICATION Spec
INVARIANT Sound
INVARIANT Emitted
CHECK_DEADLOCK FALSE
