SPECIFICATION Spec
CONSTANT MaxForeign = 0
CONSTANT Damage = TRUE
CONSTANT Stops = FALSE
CONSTANT Emitting = FALSE
INVARIANT ReadAll
INVARIANT CompleteIsRead
INVARIANT PrefixIsRefused
INVARIANT DamageIsRefused
CHECK_DEADLOCK FALSE
