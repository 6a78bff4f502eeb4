SPECIFICATION Spec
CONSTANTS Fns = {1, 2} MaxOps = 4
CONSTANT Kinds <- KindsSmall
INVARIANTS SameValue Counted CallsAreMisses Separate
CHECK_DEADLOCK FALSE
