SPECIFICATION Spec
CONSTANT MaxForeign = 1
CONSTANT Damage = FALSE
CONSTANT Stops = TRUE
CONSTANT Emitting = FALSE
INVARIANT ReadAll
INVARIANT CompleteIsRead
INVARIANT PrefixIsRefused
INVARIANT DamageIsRefused
CHECK_DEADLOCK FALSE
