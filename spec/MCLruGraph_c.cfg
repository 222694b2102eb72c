SPECIFICATION Spec
VIEW View
CONSTANTS
 Keys = {1,2}
 Ids = {1,2}
 Sizes = {1}
 Caps = {1}
 Limits = {1}
 MaxPin = 1
 MaxTime = 1
 Modes = {TRUE,FALSE}
 Opts = {TRUE,FALSE}
 EntCaps <- NoEntCap
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
INVARIANT EmitInit
