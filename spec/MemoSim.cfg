SPECIFICATION Spec
CONSTANTS Fns = {1, 2} MaxOps = 16
CONSTANT Kinds <- KindsLarge
INVARIANT Emit
CHECK_DEADLOCK FALSE
