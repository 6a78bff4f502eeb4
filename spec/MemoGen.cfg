SPECIFICATION Spec
CONSTANTS Fns = {1} MaxOps = 4
CONSTANT Kinds <- KindsSmall
INVARIANT Emit
CHECK_DEADLOCK FALSE
