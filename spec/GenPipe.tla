-------------------------------- MODULE GenPipe --------------------------------
(* Commands, inputs and options *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES scen, done
vars == <<scen, done>>
Pick(s) == s[RandomElement(DOMAIN s)]
Cmd(x) == [cmd |-> Pick(<<"ic3v2", "ic3v3", "ic3v2", "ic3v3", "vtk">>),
   rmcell |-> [k \in 1..Pick(<<0, 0, 1, 1, 2, 3>>) |-> Pick(<<"cell", "cell", "node", "absent", "again", "upper", "head">>)],
   rmnode |-> [k \in 1..Pick(<<0, 0, 0, 1, 1, 2>>) |-> Pick(<<"node", "node", "cell", "absent", "again", "upper", "head">>)],
   rmface |-> Pick(<<FALSE, FALSE, FALSE, TRUE>>), sep |-> Pick(<<"dashes", "last", "option">>),
   scale |-> Pick(<<"none", "none", "any", "any", "same", "one", "zero", "ones", "negative", "huge">>),
   nz |-> Pick(<<0, 1, 2, 2, 3, 4, 5, 6, 7, 9, 10, 29, 49>>), out |-> Pick(<<"none", "none", "sub", "abs", "up">>),
   info |-> Pick(<<FALSE, FALSE, TRUE>>), check |-> Pick(<<FALSE, FALSE, TRUE>>), log |-> Pick(<<FALSE, FALSE, TRUE>>), fmt |-> Pick(<<FALSE, FALSE, TRUE>>), order |-> Pick(<<1, 2, 3, 4, 5, 6>>),
   taken |-> Pick(<<FALSE, FALSE, TRUE>>), look |-> Pick(<<"no", "no", "info", "brief">>), next |-> Pick(<<"output", "output", "input">>)]
Draw(x) == [src |-> Pick(<<"msh22", "msh41", "cgns", "plane22", "plane41", "planecgns", "plane22", "fab", "life", "life">>), name |-> Pick(<<"mesh", "my mesh", "mesh.v1", "mesh", ".m", "noext">>),
   fields |-> Pick(<<"few", "nodes", "cells", "ints", "many", "names", "special", "dof2", "dof3", "none">>), state |-> Pick(<<"none", "state", "wgt">>), part |-> Pick(<<TRUE, FALSE>>),
   ver |-> Pick(<<2, 3>>), cover |-> Pick(<<"all", "all", "some">>), npatch |-> Pick(<<1, 2, 3>>), folder |-> Pick(<<"cwd", "sub", "other">>), ops |-> [k \in 1..Pick(<<1, 2, 2, 3>>) |-> Cmd(k)]]
Init == scen = <<>> /\ done = FALSE
Next == ~done /\ (IF scen = <<>> THEN scen' = <<Draw(done)>> /\ UNCHANGED done ELSE done' = TRUE /\ UNCHANGED scen)
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(scen[1]))
=============================================================================
