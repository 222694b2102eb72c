SPECIFICATION Spec
CONSTANTS MAX = 7 EMAX = 6
INVARIANTS Owned Alive NeverStale Emitted
CHECK_DEADLOCK FALSE
