SPECIFICATION Spec
INVARIANTS Independent FiguresKept Quiet Emitted
CHECK_DEADLOCK FALSE
