SPECIFICATION Spec
INVARIANTS CopyEqual OnlyChanged
CHECK_DEADLOCK FALSE
