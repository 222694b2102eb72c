SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2}
 Calls = 2
INVARIANTS AsAlone Untouched NoErrorLeft
PROPERTIES Ends
CHECK_DEADLOCK FALSE
