SPECIFICATION Spec
VIEW ViewL
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
