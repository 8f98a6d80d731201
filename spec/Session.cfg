SPECIFICATION Spec
INVARIANTS Agree Consistent RefusalsHarmless Emitted
CHECK_DEADLOCK FALSE
