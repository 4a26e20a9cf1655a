INIT Init
NEXT Next
INVARIANT Clear
INVARIANT Partition
CHECK_DEADLOCK FALSE
