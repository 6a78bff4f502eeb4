SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Exact AtNodes
CONSTANT MaxNode = 3
CONSTANT MaxOrder = 4
