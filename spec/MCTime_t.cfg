SPECIFICATION Spec
CONSTANTS
 B = 6
 EMIT = FALSE
INVARIANTS IsExact Lenient AllExcused Unlimited Emitted
CHECK_DEADLOCK FALSE
