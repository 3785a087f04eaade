SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxN = 15
 Stacks = {120, 124, 128}
