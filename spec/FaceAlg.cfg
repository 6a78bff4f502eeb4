SPECIFICATION Spec
CONSTANT Mutation = "none"
CONSTANT MaxCells = 2
INVARIANT Partition
INVARIANT EndOK
INVARIANT CertSound
CHECK_DEADLOCK FALSE
