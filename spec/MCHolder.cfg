SPECIFICATION Spec
CONSTANTS
 MAX = 4
INVARIANTS FirstFailure Emitted
CHECK_DEADLOCK FALSE
