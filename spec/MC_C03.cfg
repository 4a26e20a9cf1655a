INIT Init
NEXT Next
INVARIANTS AnyOrder Counted
CHECK_DEADLOCK FALSE
