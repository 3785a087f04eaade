SPECIFICATION Spec
INVARIANT Inv
CONSTANTS N = 4
MaxText = 5
CHECK_DEADLOCK FALSE
