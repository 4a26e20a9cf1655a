SPECIFICATION Spec
INVARIANTS LikeDirectSide
CHECK_DEADLOCK FALSE
