SPECIFICATION Spec
INVARIANT Carried
CHECK_DEADLOCK FALSE
