SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
