SPECIFICATION Spec
INVARIANT NonInterference
INVARIANT OneEach
CHECK_DEADLOCK FALSE
CONSTANT MaxObjs = 3
CONSTANT MaxOps = 4
