SPECIFICATION Spec
CONSTANTS
 MAX = 2
INVARIANTS ExactTexts ReadWasSigned Emitted
CHECK_DEADLOCK FALSE
