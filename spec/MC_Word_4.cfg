SPECIFICATION Spec
CONSTANT LB = 4
INVARIANTS AddLaw SubLaw CmpLaw MulLaw BitLaw OrdLaw ShiftLaw ExtLaw
CHECK_DEADLOCK FALSE
