SPECIFICATION Spec
INVARIANTS Exact OthersKept OneFile NoOption
PROPERTY Ends
CHECK_DEADLOCK FALSE
