SPECIFICATION Spec
INVARIANTS Once
CHECK_DEADLOCK FALSE
