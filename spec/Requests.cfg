SPECIFICATION Spec
INVARIANTS Same Full Cover Emitted
CHECK_DEADLOCK FALSE
