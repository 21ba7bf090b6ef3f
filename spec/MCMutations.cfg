SPECIFICATION Spec
CONSTANT K = 2
INVARIANTS InOrder ExactlyOnce
PROPERTY Ends
CHECK_DEADLOCK FALSE
