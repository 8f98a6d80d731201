SPECIFICATION Spec
INVARIANT Verdict
INVARIANT Looked
CHECK_DEADLOCK FALSE
