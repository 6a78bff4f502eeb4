SPECIFICATION Spec
CONSTANTS Vars = {"P", "RHO", "UX", "U", "Asound", "Mach", "INV"} MaxPut = 3 MaxReq = 3 Still = FALSE
CONSTANT Deps <- DepsSmall
VIEW View
INVARIANTS OrderFree
PROPERTIES Accepted Answered KeepsHeld
CHECK_DEADLOCK FALSE
