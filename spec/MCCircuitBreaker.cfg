SPECIFICATION Spec
CONSTANTS K = 2 Vol = 3 Half = 2 Num = 1 Den = 2 Reset = 2 MaxT = 3
INVARIANTS Containment RingBounded
PROPERTIES OpensForAReason Recovers
CHECK_DEADLOCK FALSE
