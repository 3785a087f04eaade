SPECIFICATION Spec
CONSTANT LB = 16
INVARIANTS NoTie Nested
CHECK_DEADLOCK FALSE
