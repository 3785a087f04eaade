SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANT MaxLines = 2
CONSTANT PairDepth = 0
