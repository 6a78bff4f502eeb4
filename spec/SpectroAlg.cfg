SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Within Centre AtLeastOne Complete Ranks AskedIsWrong
CONSTANT MaxN = 40
CONSTANT MaxWin = 14
