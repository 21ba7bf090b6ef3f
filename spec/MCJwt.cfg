SPECIFICATION Spec
CONSTANTS Poll = 3 TTL = 2 MaxT = 16 MaxFail = 1 Keys = {"a", "b"}
INVARIANT Safe
CHECK_DEADLOCK FALSE
