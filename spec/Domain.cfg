SPECIFICATION Spec
INVARIANTS Sane Emitted
CHECK_DEADLOCK FALSE
