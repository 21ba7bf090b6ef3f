SPECIFICATION Spec
CONSTANTS N = 4 Buf = 2 Cap = 2 Clients = {c1, c2, c3}
INVARIANTS InOrder EndMeansAll NoCut
PROPERTIES NoGaps NoLeak Ends
CHECK_DEADLOCK FALSE
