SPECIFICATION Spec
CONSTANT N = 3
CONSTANT MaxAv = 1
INVARIANTS Shortest Counted AvoidLonger
CHECK_DEADLOCK FALSE
