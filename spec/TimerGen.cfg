SPECIFICATION Spec
CONSTANTS Timers = {1} MaxNow = 0 MaxOps = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
