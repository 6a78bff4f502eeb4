------------------------------- MODULE GenSeries -------------------------------
(* Series of files and what is asked of them *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES scen, done
vars == <<scen, done>>
Pick(s) == s[RandomElement(DOMAIN s)]
File(x) == [order |-> Pick(<<"same", "same", "swap", "rotate", "reverse", "random", "random", "random">>), nodes |-> Pick(<<"same", "same", "random">>),
   disp |-> Pick(<<"none", "none", "none", "none", "small", "small", "cellsmall", "big", "cellbig">>),
   cells |-> Pick(<<"same", "same", "same", "same", "same", "same", "same", "same", "same", "same", "drop", "double", "extra", "one", "other">>),
   missing |-> Pick(<<FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, TRUE>>),
   fields |-> Pick(<<"all", "all", "all", "all", "all", "fewer", "more">>), time |-> Pick(<<"none", "zero", "value", "value", "negative">>), ext |-> Pick(<<"vtu", "vtu", "vtu", "vtk">>)]
Op(x) == [op |-> Pick(<<"read", "read", "read", "read", "check", "check", "exist", "rewrite">>), pos |-> Pick(<<"cellcenter", "node", "default">>),
   filter |-> Pick(<<"none", "none", "empty", "some", "some", "one", "unknown", "point", "twice">>), tol |-> Pick(<<"case", "case", "wide">>), which |-> Pick(<<1, 2, 3, 4>>), file |-> File(x)]
Draw(x) == [src |-> Pick(<<"tetra1", "pyra1", "hexa", "prism", "small", "mixed", "mixed", "plane", "plane">>), unit |-> Pick(<<"default", "default", "loose", "coarse">>),
   kinds |-> [k \in 1..Pick(<<0, 1, 2, 3, 4>>) |-> Pick(<<"scalar", "scalar", "vector", "vector", "tensor", "int", "single", "two">>)], verbose |-> Pick(<<TRUE, FALSE>>), paths |-> Pick(<<"str", "path", "mix">>),
   drift |-> Pick(<<FALSE, FALSE, FALSE, FALSE, FALSE, TRUE>>), repeat |-> Pick(<<FALSE, FALSE, FALSE, TRUE>>), files |-> [k \in 1..Pick(<<1, 2, 2, 3, 3, 4>>) |-> File(k)], ops |-> [k \in 1..Pick(<<1, 2, 3, 4>>) |-> Op(k)]]
Init == scen = <<>> /\ done = FALSE
Next == ~done /\ (IF scen = <<>> THEN scen' = <<Draw(done)>> /\ UNCHANGED done ELSE done' = TRUE /\ UNCHANGED scen)
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(scen[1]))
=============================================================================
