SPECIFICATION Spec
CONSTANTS MaxReg = 3 Emitting = FALSE
INVARIANTS KeepBoth Known Choice
CHECK_DEADLOCK FALSE
