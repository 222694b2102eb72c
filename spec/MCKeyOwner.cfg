SPECIFICATION Spec
CONSTANTS MAX = 6 EMAX = 5
INVARIANTS Owned Alive NeverStale Emitted
CHECK_DEADLOCK FALSE
