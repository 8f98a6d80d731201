SPECIFICATION Spec
INVARIANT Partition
INVARIANT Bounded
INVARIANT Emitted
CHECK_DEADLOCK FALSE
