SPECIFICATION Spec
VIEW View
CONSTANTS
 Keys = {1,2}
 Ids = {1,2,3}
 Sizes = {1,2}
 Caps = {1,2}
 Limits = {}
 MaxPin = 2
 MaxTime = 1
 Modes = {TRUE}
 Opts = {TRUE}
 EntCaps <- EntCapOne
CHECK_DEADLOCK FALSE
INVARIANTS InvType InvUnique InvDeferred InvList InvOrder InvCapacity InvPinned InvFill InvMany
PROPERTIES DisposeOnce PinsExact LookupRight EvictNeeded EvictOldest ExpireExact QuietAccess
