SPECIFICATION Spec
CONSTANTS
 MAX = 6
INVARIANTS FirstFailure Emitted
CHECK_DEADLOCK FALSE
