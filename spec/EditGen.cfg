SPECIFICATION Spec
CONSTANTS Gen = TRUE MaxOps = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
