SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS DataConforms NoErrors
