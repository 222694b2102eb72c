SPECIFICATION Spec
CONSTANTS
 TextsOf = {"none", "x"}
 EMIT = TRUE
INVARIANTS Good Shows Apart Emitted
CHECK_DEADLOCK FALSE
