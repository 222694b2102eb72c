SPECIFICATION Spec
CONSTANTS
 MAX = 5
 EMAX = 5
INVARIANTS NoDangling Apart Independent NoLeak Emitted
CHECK_DEADLOCK FALSE
