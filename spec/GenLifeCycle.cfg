SPECIFICATION Spec
CONSTANT MaxMarks = 4
CONSTANT MaxSteps = 11
CONSTANT MaxWrites = 4
CONSTANT Ops = {"mark", "derive", "write", "read"}
CONSTANT Mesh0 = {"small", "mixed", "hexa", "prism"}
CONSTANT Fields0 = {"none", "few"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
