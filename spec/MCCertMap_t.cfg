SPECIFICATION Spec
CONSTANTS
 MAX = 4
INVARIANTS Allowed AllOrNone Usable Emitted
CHECK_DEADLOCK FALSE
