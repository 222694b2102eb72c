SPECIFICATION Spec
CONSTANTS
 MAX = 4
 EMAX = 4
INVARIANTS Unhistoric Failed Emitted
CHECK_DEADLOCK FALSE
