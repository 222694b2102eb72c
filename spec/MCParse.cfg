SPECIFICATION Spec
CONSTANTS
 MAX = 3
 EMAX = 2
INVARIANTS NamesFirst Emitted
PROPERTIES Stable
CHECK_DEADLOCK FALSE
