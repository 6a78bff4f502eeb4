SPECIFICATION Spec
CONSTANTS
  Mutation = "none"
  MaxCells = 3
INVARIANTS Partition EndOK CertSound
CHECK_DEADLOCK FALSE
