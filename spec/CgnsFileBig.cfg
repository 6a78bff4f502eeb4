SPECIFICATION Spec
CONSTANTS MaxBc = 3 Kinds <- Mid
INVARIANT Good
CHECK_DEADLOCK FALSE
