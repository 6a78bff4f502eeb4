SPECIFICATION Spec
CONSTANT Dims <- SmallDims
CONSTANT Full = TRUE
INVARIANT Emit
INVARIANT FitOK
CHECK_DEADLOCK FALSE
