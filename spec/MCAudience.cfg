SPECIFICATION Spec
CONSTANTS
 Pieces = {"a", "/", "http://", "https://", "HTTP://", ":"}
 MAX = 3
 EMIT = TRUE
INVARIANTS SameCore OnlyThese Always OneOne Lists Emitted
CHECK_DEADLOCK FALSE
