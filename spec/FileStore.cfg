SPECIFICATION Spec
CONSTANTS Max = 2 Steps = 3 Env = TRUE
 Kinds = {"none", "file", "dir"} Dests = {"cwd", "out"} Cmds = {"ic3v3", "meshdump"} Styles = {"plain"}
INVARIANT Bounded
PROPERTIES Kept FirstFree Fresh
CHECK_DEADLOCK FALSE
