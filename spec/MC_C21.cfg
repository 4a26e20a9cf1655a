SPECIFICATION Spec
INVARIANTS Clear Commutes Signals
CHECK_DEADLOCK FALSE
