SPECIFICATION Spec
CONSTANT MaxMarks = 4
CONSTANT MaxSteps = 7
CONSTANT MaxWrites = 3
CONSTANT Ops = {"mark", "write", "read"}
CONSTANT Mesh0 = {"small", "mixed", "tetra1", "pyra1", "hexa"}
CONSTANT Fields0 = {"few", "nodes", "cells", "ints", "dof2", "dof3", "many", "names", "special"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
