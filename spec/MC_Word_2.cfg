SPECIFICATION Spec
CONSTANT LB = 2
INVARIANTS AddLaw SubLaw CmpLaw MulLaw BitLaw OrdLaw ShiftLaw ExtLaw
CHECK_DEADLOCK FALSE
