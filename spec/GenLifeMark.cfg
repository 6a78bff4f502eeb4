SPECIFICATION Spec
CONSTANT MaxMarks = 4
CONSTANT MaxSteps = 8
CONSTANT MaxWrites = 1
CONSTANT Ops = {"mark", "derive", "prepare"}
CONSTANT Mesh0 = {"small", "mixed"}
CONSTANT Fields0 = {"none"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
