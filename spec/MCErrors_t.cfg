SPECIFICATION Spec
CONSTANTS
 MAX = 4
 EMAX = 3
INVARIANTS NonePending Emitted
CHECK_DEADLOCK FALSE
