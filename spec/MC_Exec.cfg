SPECIFICATION Spec
CONSTANT Stride = 29
CONSTANT MaxK = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
