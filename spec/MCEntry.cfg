SPECIFICATION Spec
CONSTANTS
 MAX = 3
 EMAX = 2
INVARIANTS AcceptedIffGood BlamedRightly Irrelevant Emitted
CHECK_DEADLOCK FALSE
