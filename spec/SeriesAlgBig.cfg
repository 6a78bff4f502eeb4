SPECIFICATION Spec
CONSTANTS N = 4  NF = 2  Disp <- Shifts
INVARIANTS Right Aligned
CHECK_DEADLOCK FALSE
