CONSTANT MaxOps = 8
SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
