-------------------------------- MODULE GenInfo --------------------------------
(* What is reported on, and how *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES scen, done
vars == <<scen, done>>
Pick(s) == s[RandomElement({i \in DOMAIN s : ~done})]
Mesh(x) == [what |-> "mesh", mesh |-> Pick(<<"tetra1", "pyra1", "prism1", "hexa", "prism", "small", "mixed", "mixed", "plane">>), mode |-> Pick(<<"default", "random", "interleaved">>),
   ops |-> [k \in 1..Pick(<<1, 2, 3, 4, 5, 6>>) |-> Pick(<<"mark", "mark", "derive", "derive", "convert", "prepare", "scale", "param", "drop", "popfaces", "mixed", "extrude", "unmarked">>)],
   detailed |-> Pick(<<FALSE, TRUE>>), params |-> Pick(<<"none", "some", "none">>)]
File(x) == [what |-> "file", src |-> Pick(<<"msh22", "msh41", "cgns", "plane22", "plane41", "planecgns", "fab", "fab", "fab", "v4", "v4", "life", "life">>), ver |-> Pick(<<2, 3>>),
   npatch |-> Pick(<<1, 2, 3>>), cover |-> Pick(<<"all", "some">>), name |-> Pick(<<"mesh", "my mesh", "mesh.v1", "noext">>),
   check |-> Pick(<<FALSE, TRUE>>), fmt |-> Pick(<<FALSE, TRUE>>), log |-> Pick(<<FALSE, TRUE>>),
   no |-> Pick(<<4, 6, 9>>), fa |-> Pick(<<3, 5, 7>>), cv |-> Pick(<<1, 2, 4>>), ndof |-> Pick(<<1, 1, 1, 2, 3>>),
   kinds |-> [k \in 1..Pick(<<0, 1, 2, 3, 4>>) |-> Pick(<<"NO_D1", "NO_D3", "CV_D1", "CV_D3", "CV_D33", "NO_II1", "CV_II1">>)], wide |-> Pick(<<"small", "small", "large">>)]
Secs(x) == [File(x) EXCEPT !.what = "secs", !.src = Pick(<<"fab", "fab", "life">>)] @@ [perm |-> Pick(<<"none", "foreign", "permuted", "none">>)]
Grid(x) == [what |-> "grid", mesh |-> Pick(<<"tetra1", "hexa", "small", "mixed", "plane">>), ext |-> Pick(<<".vtu", ".vtu", ".vtk">>), ncd |-> Pick(<<0, 1, 2>>), npd |-> Pick(<<0, 1, 2>>), nfd |-> Pick(<<0, 0, 1>>),
   kind |-> Pick(<<"float64", "float32", "int">>)]
Conv(x) == [File(x) EXCEPT !.what = "conv", !.src = Pick(<<"msh22", "cgns", "plane22", "plane41", "fab", "life">>)] @@
           [cmd |-> Pick(<<"ic3v2", "ic3v3", "vtk">>), nz |-> Pick(<<1, 2, 4, 8>>), scale |-> Pick(<<"none", "any", "any">>), taken |-> Pick(<<FALSE, TRUE>>),
            rm |-> [k \in 1..Pick(<<0, 1, 2, 3>>) |-> <<Pick(<<"cell", "node">>), Pick(<<"here", "here", "other", "again", "absent">>)>>]]
Refuse(x) == [what |-> "refuse", cmd |-> Pick(<<"info", "info", "ic3brief", "vtkbrief">>), how |-> Pick(<<"missing", "extension", "format", "empty">>)]   \* VTK itself opens empty files
Draw == \E k \in {Pick(<<"mesh", "mesh", "mesh", "file", "file", "file", "file", "secs", "grid", "conv", "refuse">>)} :
        scen' = << CASE k = "mesh" -> Mesh(done) [] k = "file" -> File(done) [] k = "secs" -> Secs(done) [] k = "grid" -> Grid(done)
                     [] k = "conv" -> Conv(done) [] OTHER -> Refuse(done) >>
Init == scen = <<>> /\ done = FALSE
Next == ~done /\ (IF scen = <<>> THEN Draw /\ UNCHANGED done ELSE done' = TRUE /\ UNCHANGED scen)
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(scen[1]))
=============================================================================
