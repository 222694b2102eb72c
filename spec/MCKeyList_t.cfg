SPECIFICATION Spec
CONSTANTS
 MAX = 7
 EMAX = 5
INVARIANTS SameKeys SameStatus OkIffKeys Order Emitted
PROPERTIES Kept
CHECK_DEADLOCK FALSE
