INIT Init
NEXT Next
INVARIANT OwnCoords
INVARIANT Bounded
CHECK_DEADLOCK FALSE
