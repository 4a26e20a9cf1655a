SPECIFICATION Spec
INVARIANTS Sized Transposed
CHECK_DEADLOCK FALSE
