SPECIFICATION Spec
CONSTANTS Timers = {1, 2} MaxNow = 0 MaxOps = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
