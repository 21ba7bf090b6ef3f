SPECIFICATION Spec
CONSTANTS Clients = {1, 2, 3}
 MaxExec = 4
 Keys <- MCKeys2
INVARIANTS Isolation Unshared NoStuck
CHECK_DEADLOCK FALSE
