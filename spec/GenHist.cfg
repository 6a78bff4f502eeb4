SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANT MaxOps = 13
CONSTANT MaxObjs = 9
