SPECIFICATION Spec
CONSTANTS Gen = FALSE MaxOps = 4
INVARIANTS Good CallerKept Counts
VIEW View
CHECK_DEADLOCK FALSE
