SPECIFICATION Spec
INVARIANTS ThereAndBack
CHECK_DEADLOCK FALSE
