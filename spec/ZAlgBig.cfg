SPECIFICATION Spec
CONSTANTS N = 6  Cols = 2  Levels <- Lv3  Jit <- Flat
INVARIANTS Refused Columns
CHECK_DEADLOCK FALSE
