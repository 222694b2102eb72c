SPECIFICATION Spec
CONSTANTS
 MAX = 4
 EMAX = 3
INVARIANTS AcceptedIffGood BlamedRightly Irrelevant Emitted
CHECK_DEADLOCK FALSE
