SPECIFICATION Spec
CONSTANT MaxForeign = 1
CONSTANT Damage = FALSE
CONSTANT Stops = FALSE
CONSTANT Emitting = TRUE
INVARIANT ReadAll
INVARIANT CompleteIsRead
INVARIANT PrefixIsRefused
INVARIANT DamageIsRefused
CHECK_DEADLOCK FALSE
INVARIANT Emit
