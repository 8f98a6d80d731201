SPECIFICATION Spec
INVARIANTS Contract OpenBinStartsBefore DpIsOptimal DpBounds Emitted
CHECK_DEADLOCK FALSE
