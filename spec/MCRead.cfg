SPECIFICATION Spec
CONSTANTS
 MAX = 1
INVARIANTS ExactTexts ReadWasSigned Emitted
CHECK_DEADLOCK FALSE
