INIT Init
NEXT Next
INVARIANT Rebuilds
INVARIANT Multiples
CHECK_DEADLOCK FALSE
