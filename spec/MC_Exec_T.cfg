SPECIFICATION Spec
CONSTANT Stride = 1
CONSTANT MaxK = 16
INVARIANT Inv
CHECK_DEADLOCK FALSE
