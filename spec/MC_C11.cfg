SPECIFICATION Spec
INVARIANTS OnlyCoords OnlyValues
CHECK_DEADLOCK FALSE
