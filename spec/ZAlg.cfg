SPECIFICATION Spec
CONSTANTS N = 4  Cols = 2  Levels <- Lv4  Jit <- Flat
INVARIANTS Refused Columns
PROPERTY Ends
CHECK_DEADLOCK FALSE
