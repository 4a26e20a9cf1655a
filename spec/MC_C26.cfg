SPECIFICATION Spec
INVARIANTS FilterMeets LargestAgree
CHECK_DEADLOCK FALSE
