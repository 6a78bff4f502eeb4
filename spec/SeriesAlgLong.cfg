SPECIFICATION Spec
CONSTANTS N = 3  NF = 3  Disp <- NoShift
INVARIANTS Right Aligned
CHECK_DEADLOCK FALSE
