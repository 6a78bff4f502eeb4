SPECIFICATION Spec
CONSTANTS Max = 3 Steps = 3 Env = FALSE
 Kinds = {"none", "file", "dir", "link"} Dests = {"cwd", "sub", "abs", "up", "missing"}
 Cmds = {"ic3v2", "ic3v3", "vtk", "vtkpack", "meshdump", "listdump", "vtklist", "vtkxmf"}
 Styles = {"plain", "dots", "space", "number", "nosuffix", "hidden", "many", "upper"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
