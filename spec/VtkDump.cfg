SPECIFICATION Spec
CONSTANTS N = 5
INVARIANTS Dumped Seen Stable
PROPERTY Ends
CHECK_DEADLOCK FALSE
