SPECIFICATION Spec
INVARIANT MemoTrue
INVARIANT Symmetric
INVARIANT Vanishes
INVARIANT Said
CHECK_DEADLOCK FALSE
