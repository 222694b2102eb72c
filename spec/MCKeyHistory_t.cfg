SPECIFICATION Spec
CONSTANTS
 MAX = 4
 EMAX = 4
INVARIANTS KeysOrFailure Emitted
PROPERTIES Appends
CHECK_DEADLOCK FALSE
