SPECIFICATION Spec
CONSTANTS Gen = FALSE Dims <- SmallDims
 MaxPlanes = 3 MarkKinds = {"sides", "none"} PlaneKinds = {"unit"} Modes = {"default"}
INVARIANTS Good Conform Sides
CHECK_DEADLOCK FALSE
