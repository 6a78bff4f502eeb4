SPECIFICATION Spec
CONSTANT Shape = "prism"
CONSTANT Mutation = "none"
CONSTANT Emitting = TRUE
INVARIANT Refusal
INVARIANT Kept
CHECK_DEADLOCK FALSE
INVARIANT Emit
