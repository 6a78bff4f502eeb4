SPECIFICATION Spec
CONSTANTS MaxReg = 3 Emitting = TRUE
INVARIANT EmitH
CHECK_DEADLOCK FALSE
