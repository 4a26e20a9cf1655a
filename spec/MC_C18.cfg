SPECIFICATION Spec
INVARIANTS Typed RefusedKeeps
CHECK_DEADLOCK FALSE
