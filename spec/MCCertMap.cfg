SPECIFICATION Spec
CONSTANTS
 MAX = 3
INVARIANTS Allowed AllOrNone Usable Emitted
CHECK_DEADLOCK FALSE
