SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
