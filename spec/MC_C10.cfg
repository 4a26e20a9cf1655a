SPECIFICATION Spec
INVARIANTS Before
CHECK_DEADLOCK FALSE
