SPECIFICATION Spec
INVARIANTS Holds Combined
CHECK_DEADLOCK FALSE
