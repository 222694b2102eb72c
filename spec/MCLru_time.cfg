SPECIFICATION Spec
VIEW View
CONSTANTS
 Keys = {1,2}
 Ids = {1,2,3}
 Sizes = {1}
 Caps = {2}
 Limits = {0,1}
 MaxPin = 1
 MaxTime = 3
 Modes = {TRUE,FALSE}
 Opts = {TRUE}
 EntCaps <- NoEntCap
CHECK_DEADLOCK FALSE
INVARIANTS InvType InvUnique InvDeferred InvList InvOrder InvCapacity InvPinned InvFill
PROPERTIES DisposeOnce PinsExact LookupRight EvictNeeded EvictOldest ExpireExact QuietAccess
