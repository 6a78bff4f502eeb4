SPECIFICATION Spec
CONSTANT Max = 3
INVARIANTS Good Conform Tiles
CHECK_DEADLOCK FALSE
