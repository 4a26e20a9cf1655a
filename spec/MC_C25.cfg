SPECIFICATION Spec
INVARIANTS AllCells
CHECK_DEADLOCK FALSE
