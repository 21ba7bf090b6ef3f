SPECIFICATION Spec
CONSTANTS N = 3 Faults = 2 EarlyTag = FALSE
INVARIANT Served
PROPERTIES NeverBack CatchesUp SubsFollow
CHECK_DEADLOCK FALSE
