SPECIFICATION Spec
CONSTANT Dims <- BigDims
CONSTANT Full = TRUE
INVARIANT Emit
INVARIANT FitOK
CHECK_DEADLOCK FALSE
