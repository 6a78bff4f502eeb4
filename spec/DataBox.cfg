SPECIFICATION Spec
CONSTANTS Names = {"time", "u", "v"} MaxSets = 2 MaxOps = 5
VIEW View
INVARIANTS KeepsAdded NoDuplicate
PROPERTIES DeriveKeeps
CHECK_DEADLOCK FALSE
