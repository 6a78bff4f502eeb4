SPECIFICATION Spec
CONSTANT NF = 6
CONSTANT MaxMarks = 4
CONSTANT MaxSteps = 3
INVARIANT Keeps
INVARIANT OffsetsTile
INVARIANT Fixed
CHECK_DEADLOCK FALSE
