SPECIFICATION Spec
CONSTANT NF = 4
CONSTANT MaxMarks = 3
CONSTANT MaxSteps = 3
INVARIANT Keeps
INVARIANT OffsetsTile
INVARIANT Fixed
CHECK_DEADLOCK FALSE
