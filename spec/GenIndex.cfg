SPECIFICATION Spec
CONSTANTS MaxObj = 5 MaxCon = 5 MaxSteps = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
