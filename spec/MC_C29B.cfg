SPECIFICATION Spec
INVARIANTS EachAngle
CHECK_DEADLOCK FALSE
