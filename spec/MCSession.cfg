SPECIFICATION Spec
CONSTANTS
 MAX = 3
 EMAX = 3
INVARIANTS Unhistoric Failed Emitted
CHECK_DEADLOCK FALSE
