SPECIFICATION Spec
INVARIANT Inv
CONSTANTS W = 3
MaxDecs = 3
CHECK_DEADLOCK FALSE
