---------------------------------- MODULE GenZ ----------------------------------
(* Grids of planes, with or without a defect, and what is asked of them *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES scen, done
vars == <<scen, done>>
Pick(s) == s[RandomElement(DOMAIN s)]
B == <<FALSE, TRUE>>
Dir(x) == Pick(<<"avg", "no_avg", "rms", "phase", "snapshot", "nmode", "nmode", "off-rms", "off-snapshot", "off-phase", "off-avg">>)
Sel(x) == [name |-> Pick(<<1, 2, 3, 4>>), form |-> Pick(<<"list", "list", "str">>), dirs |-> [k \in 1..Pick(<<0, 1, 2, 3, 4>>) |-> Dir(k)]]
Op(x) == [op |-> Pick(<<"average", "average", "average", "average", "extract">>), rms |-> Pick(B), phase |-> Pick(B), snapshot |-> Pick(B), nmode |-> Pick(<<0, 0, 1, 1, 2, 3, 9>>),
   defaults |-> Pick(<<FALSE, FALSE, FALSE, TRUE>>), select |-> Pick(<<"none", "none", "some", "some", "some", "empty", "unknown">>), sel |-> [k \in 1..Pick(<<1, 1, 2, 3>>) |-> Sel(k)],
   ids |-> Pick(<<"plane", "some", "all", "one">>)]
Draw(x) == [layout |-> Pick(<<"shared", "shared", "own", "own", "own", "line">>), dir |-> Pick(<<"default", "default", "z", "x", "y", "-z", "-x", "theta", "swap">>), np |-> Pick(<<2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 1>>),
   defect |-> Pick(<<"none", "none", "none", "none", "none", "none", "jitter", "jitter", "jitter", "planeshift", "cellshift", "missing", "extra", "double", "double", "uneven", "cellz", "gap", "swapcol", "both", "moved">>),
   order |-> Pick(<<"random", "random", "random", "natural", "reverse">>), tol |-> Pick(<<"default", "default", "loose">>), by |-> Pick(<<"pv", "pv", "file", "mesh">>),
   kinds |-> [k \in 1..Pick(<<1, 2, 3, 0>>) |-> Pick(<<"scalar", "scalar", "vector", "tensor", "int", "single">>)], ops |-> [k \in 1..Pick(<<1, 1, 2, 3>>) |-> Op(k)]]
Init == scen = <<>> /\ done = FALSE
Next == ~done /\ (IF scen = <<>> THEN scen' = <<Draw(done)>> /\ UNCHANGED done ELSE done' = TRUE /\ UNCHANGED scen)
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(scen[1]))
=============================================================================
