SPECIFICATION Spec
INVARIANT Inv
CONSTANTS W = 3
MaxDecs = 4
CHECK_DEADLOCK FALSE
