SPECIFICATION Spec
INVARIANT Safe
INVARIANT Faithful
INVARIANT Reported
CHECK_DEADLOCK FALSE
