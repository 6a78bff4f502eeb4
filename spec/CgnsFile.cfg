SPECIFICATION Spec
CONSTANTS MaxBc = 2 Kinds <- Few
INVARIANT Good
CHECK_DEADLOCK FALSE
