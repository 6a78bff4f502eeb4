SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANT MaxOps = 12
CONSTANT MaxMarks = 4
