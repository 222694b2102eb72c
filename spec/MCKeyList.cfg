SPECIFICATION Spec
CONSTANTS
 MAX = 5
 EMAX = 4
INVARIANTS SameKeys SameStatus OkIffKeys Order Emitted
PROPERTIES Kept
CHECK_DEADLOCK FALSE
