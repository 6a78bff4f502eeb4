SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Exact AtNodes
CONSTANT MaxNode = 2
CONSTANT MaxOrder = 4
