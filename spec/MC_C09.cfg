SPECIFICATION Spec
INVARIANTS Inverts SameRefusal
CHECK_DEADLOCK FALSE
