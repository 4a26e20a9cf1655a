SPECIFICATION Spec
INVARIANTS CommonRange
CHECK_DEADLOCK FALSE
