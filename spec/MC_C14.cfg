INIT Init
NEXT Next
INVARIANT AsExpanded
CHECK_DEADLOCK FALSE
