SPECIFICATION Spec
CONSTANTS
 MAX = 4
 EMAX = 4
INVARIANTS NoDangling Apart Independent NoLeak Emitted
CHECK_DEADLOCK FALSE
