SPECIFICATION Spec
CONSTANTS N = 7
INVARIANTS Dumped Seen Stable
PROPERTY Ends
CHECK_DEADLOCK FALSE
