SPECIFICATION Spec
CONSTANTS
 MAX = 4
 EMAX = 3
INVARIANTS NamesFirst Emitted
PROPERTIES Stable
CHECK_DEADLOCK FALSE
