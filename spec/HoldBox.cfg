CONSTANT MaxOps = 6
SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
