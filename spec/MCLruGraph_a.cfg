SPECIFICATION Spec
VIEW View
CONSTANTS
 Keys = {1,2}
 Ids = {1,2,3}
 Sizes = {1,2}
 Caps = {2}
 Limits = {}
 MaxPin = 2
 MaxTime = 0
 Modes = {TRUE}
 Opts = {TRUE}
 EntCaps <- NoEntCap
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
INVARIANT EmitInit
