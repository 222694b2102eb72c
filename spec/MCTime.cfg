SPECIFICATION Spec
CONSTANTS
 B = 4
 EMIT = TRUE
INVARIANTS IsExact Lenient AllExcused Unlimited Emitted
CHECK_DEADLOCK FALSE
