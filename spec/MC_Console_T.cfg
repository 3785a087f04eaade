SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANT MaxLines = 3
CONSTANT PairDepth = 1
