SPECIFICATION Spec
INVARIANTS Keeps Agree NoGap
CHECK_DEADLOCK FALSE
