SPECIFICATION Spec
INVARIANTS Unchanged SameAnswer
CHECK_DEADLOCK FALSE
