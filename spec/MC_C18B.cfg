SPECIFICATION Spec
INVARIANTS NothingToGive
CHECK_DEADLOCK FALSE
