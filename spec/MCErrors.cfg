SPECIFICATION Spec
CONSTANTS
 MAX = 3
 EMAX = 2
INVARIANTS NonePending Emitted
CHECK_DEADLOCK FALSE
