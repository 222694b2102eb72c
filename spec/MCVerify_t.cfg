SPECIFICATION Spec
CONSTANTS
 MAX = 2
 EMAX = 2
 KKids = {"", "k1", "k2"}
 Tokens2 = TRUE
INVARIANTS AsTheLoop Sound Complete AnyOrder Selects Others Lengths Emitted
PROPERTIES Grows
CHECK_DEADLOCK FALSE
