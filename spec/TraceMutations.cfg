SPECIFICATION Spec
CONSTRAINT Track
INVARIANT InOrder
POSTCONDITION Report
CHECK_DEADLOCK FALSE
