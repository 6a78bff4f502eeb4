SPECIFICATION Spec
CONSTANT Counts = {3, 4, 6}
INVARIANT Emit
CHECK_DEADLOCK FALSE
