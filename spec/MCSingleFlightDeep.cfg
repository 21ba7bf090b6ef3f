SPECIFICATION Spec
CONSTANTS Clients = {1, 2, 3}
 MaxExec = 5
 Keys <- MCKeys
INVARIANTS Isolation Unshared NoStuck
CHECK_DEADLOCK FALSE
