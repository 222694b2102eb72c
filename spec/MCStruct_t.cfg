SPECIFICATION Spec
CONSTANTS
 DEEP = TRUE
 EMIT = TRUE
INVARIANTS AsSaid Outputs Emitted
CHECK_DEADLOCK FALSE
