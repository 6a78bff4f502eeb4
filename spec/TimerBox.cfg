SPECIFICATION Spec
CONSTANTS Timers = {1, 2} MaxNow = 4 MaxOps = 5
VIEW View
INVARIANTS Accumulates RunningIsOpen Idle
PROPERTIES Reports Refuses
CHECK_DEADLOCK FALSE
