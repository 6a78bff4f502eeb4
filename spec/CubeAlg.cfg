SPECIFICATION Spec
CONSTANT Max = 2
INVARIANTS Good Conform Tiles
CHECK_DEADLOCK FALSE
