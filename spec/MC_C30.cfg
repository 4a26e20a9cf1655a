SPECIFICATION Spec
INVARIANT Keeps
CHECK_DEADLOCK FALSE
