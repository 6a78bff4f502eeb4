SPECIFICATION Spec
CONSTANTS Gen = FALSE Dims <- TinyDims
 MaxPlanes = 3 MarkKinds = {"sides", "none"} PlaneKinds = {"unit"} Modes = {"default"}
INVARIANTS Good Conform Sides
CHECK_DEADLOCK FALSE
