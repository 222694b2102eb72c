SPECIFICATION Spec
CONSTANTS
 Pieces = {"a", "/", "http://", "https://", "h"}
 MAX = 4
 EMIT = TRUE
INVARIANTS SameCore OnlyThese Always OneOne Lists Emitted
CHECK_DEADLOCK FALSE
