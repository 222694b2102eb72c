SPECIFICATION Spec
CONSTANTS
 DEEP = FALSE
 EMIT = TRUE
INVARIANTS AsSaid Outputs Emitted
CHECK_DEADLOCK FALSE
