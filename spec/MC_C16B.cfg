SPECIFICATION Spec
INVARIANTS SameAnswers
CHECK_DEADLOCK FALSE
