SPECIFICATION Spec
CONSTANT Shape = "prism"
CONSTANT Mutation = "none"
CONSTANT Emitting = FALSE
INVARIANT Refusal
INVARIANT Kept
CHECK_DEADLOCK FALSE
