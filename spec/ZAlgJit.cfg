SPECIFICATION Spec
CONSTANTS N = 3  Cols = 2  Levels <- Lv4  Jit <- Jitter
INVARIANTS Refused Columns
PROPERTY Ends
CHECK_DEADLOCK FALSE
