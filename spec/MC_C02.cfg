INIT Init
NEXT Next
INVARIANT Transparent
CHECK_DEADLOCK FALSE
