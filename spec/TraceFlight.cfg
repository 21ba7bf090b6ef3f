SPECIFICATION Spec
CONSTRAINT Track
INVARIANT Isolation Unshared
POSTCONDITION Report
CHECK_DEADLOCK FALSE
