SPECIFICATION Spec
INVARIANT Inv
CONSTANTS W = 4
MaxDecs = 3
CHECK_DEADLOCK FALSE
