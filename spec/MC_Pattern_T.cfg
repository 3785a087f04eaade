SPECIFICATION Spec
INVARIANT Inv
CONSTANTS N = 5
MaxText = 7
CHECK_DEADLOCK FALSE
