CONSTANT MaxOps = 3
SPECIFICATION Spec
INVARIANT Sound
INVARIANT Faithful
INVARIANT Complete
CHECK_DEADLOCK FALSE
