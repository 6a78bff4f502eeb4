SPECIFICATION Spec
CONSTANTS N = 3  NF = 2  Disp <- Shifts
INVARIANTS Right Aligned
PROPERTY Ends
CHECK_DEADLOCK FALSE
