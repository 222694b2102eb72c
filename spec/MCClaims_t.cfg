SPECIFICATION Spec
CONSTANTS
 TextsOf = {"none", "empty", "x"}
 EMIT = TRUE
INVARIANTS Good Shows Apart Emitted
CHECK_DEADLOCK FALSE
