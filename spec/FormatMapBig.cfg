SPECIFICATION Spec
CONSTANTS MaxReg = 4 Emitting = FALSE
INVARIANTS KeepBoth Known Choice
CHECK_DEADLOCK FALSE
