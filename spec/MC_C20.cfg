SPECIFICATION Spec
INVARIANTS Undone Alike
CHECK_DEADLOCK FALSE
