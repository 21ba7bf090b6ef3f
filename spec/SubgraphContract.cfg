SPECIFICATION Spec
INVARIANT Contract
CHECK_DEADLOCK FALSE
