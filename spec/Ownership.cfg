SPECIFICATION Spec
INVARIANT CallerUnchanged
INVARIANT Emitted
CHECK_DEADLOCK FALSE
