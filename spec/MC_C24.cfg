SPECIFICATION Spec
INVARIANTS ModulusOfAnswer HarmonicTable
CHECK_DEADLOCK FALSE
