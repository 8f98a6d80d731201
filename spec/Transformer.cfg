SPECIFICATION Spec
INVARIANT Partition
INVARIANT Said
CHECK_DEADLOCK FALSE
