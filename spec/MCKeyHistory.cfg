SPECIFICATION Spec
CONSTANTS
 MAX = 3
 EMAX = 3
INVARIANTS KeysOrFailure Emitted
PROPERTIES Appends
CHECK_DEADLOCK FALSE
