-------------------------------- MODULE GenVtk --------------------------------
(* Lives of vtkMesh objects: meshes and grids given, files written, read, dumped and imported *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES scen, done
vars == <<scen, done>>
Pick(s) == s[RandomElement(DOMAIN s)]
Op(x) == [op |-> Pick(<<"set", "pv", "export", "save", "load", "load", "dump", "dump", "import", "import", "volumes", "volumes", "series", "series", "series", "list", "list", "look">>),
   o |-> Pick(<<1, 1, 1, 2>>), pick |-> Pick(<<1, 2, 3, 4, 5, 6, 7>>), name |-> Pick(<<"a", "a", "b.c", "sub/a">>), new |-> Pick(<<TRUE, FALSE>>), over |-> Pick(<<TRUE, FALSE>>),
   path |-> Pick(<<"str", "path">>), rel |-> Pick(<<TRUE, FALSE>>), ext |-> Pick(<<"vtu", "vtu", "vtk">>),
   zip |-> Pick(<<"none", "none", "gzip", "gzip9", "lzf", "shuffle", "chunks">>), xdmf |-> Pick(<<TRUE, TRUE, FALSE>>),
   nfile |-> Pick(<<1, 2, 2, 3>>), filter |-> Pick(<<"none", "none", "some", "one">>), nodal |-> Pick(<<FALSE, FALSE, TRUE>>), trep |-> Pick(<<"instant", "timeevol">>),
   kinds |-> [k \in 1..Pick(<<0, 1, 2, 3>>) |-> Pick(<<"scalar", "scalar", "vector", "tensor", "int", "single", "two", "matrix">>)],
   times |-> [k \in 1..3 |-> Pick(<<"none", "zero", "value", "negative">>)]]
Draw(x) == [src |-> Pick(<<"tetra1", "pyra1", "prism1", "hexa", "prism", "small", "small", "mixed", "mixed", "mixed", "plane">>), coords |-> Pick(<<"lattice", "lattice", "floats", "single">>),
   number |-> Pick(<<"default", "explicit", "explicit">>), kinds |-> [k \in 1..Pick(<<0, 1, 2, 3, 4>>) |-> Pick(<<"scalar", "scalar", "vector", "tensor", "int", "single", "two">>)],
   times |-> [k \in 1..3 |-> Pick(<<"none", "zero", "value", "value", "negative">>)], names |-> Pick(<<"plain", "plain", "odd">>),
   drop |-> [k \in 1..3 |-> Pick(<<0, 0, 0, 0, 1, 2>>)], \* field that a file of the series does not have
   ops |-> [k \in 1..Pick(<<2, 3, 4, 5, 6, 7>>) |-> Op(k)]]
Init == scen = <<>> /\ done = FALSE
Next == ~done /\ (IF scen = <<>> THEN scen' = <<Draw(done)>> /\ UNCHANGED done ELSE done' = TRUE /\ UNCHANGED scen)
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(scen[1]))
=============================================================================
