SPECIFICATION Spec
CONSTANTS Gen = TRUE Dims <- GenDims
 MaxPlanes = 5 MarkKinds = {"sides", "pieces", "halves", "none", "part", "perio"}
 PlaneKinds = {"unit", "uneven", "below", "oblique", "default", "down"} Modes = {"default", "split", "explicit"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
