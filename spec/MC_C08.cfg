SPECIFICATION Spec
INVARIANTS OnGrid
CHECK_DEADLOCK FALSE
