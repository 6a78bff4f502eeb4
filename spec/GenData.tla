-------------------------------- MODULE GenData --------------------------------
(* Histories of calls on data sets and lists of data sets *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES scen, done
vars == <<scen, done>>
Pick(s) == s[RandomElement(DOMAIN s)]
Nm(x) == Pick(<<"time", "u", "v", "w", "p rms">>)
Filter(x) == Pick(<<<<>>, <<>>, <<"u">>, <<"u", "time">>, <<"time", "v", "u">>, <<"v", "w">>, <<"u", "u", "time">>, <<"nothing">>, <<"time">>>>)
Op(x) == LET k == Pick(<<"new", "add", "add", "add", "add", "pop", "get", "setdata", "nodes", "mesh", "spectrum", "spectrum", "spectrogram", "dtstats",
                         "newlist", "addlist", "addlist", "addlist", "dump">>) IN
  [op |-> k, d |-> RandomElement(1..4), name |-> Nm(x), filter |-> Filter(x), time |-> Pick(<<"none", "none", "zero", "num", "int">>),
   xrep |-> Pick(<<"cellaverage", "nodal", "spectralcell", "nodes">>), ndof |-> Pick(<<1, 1, 1, 4>>),
   trep |-> Pick(<<"timeevol", "timeevol", "timeevol", "instant", "spectrum", "other">>),
   y |-> Pick(<<"no", "array", "list", "zero">>), z |-> Pick(<<"no", "array", "zero">>), range |-> Pick(<<"all", "all", "from", "to", "part">>),
   keep |-> Pick(<<TRUE, FALSE, FALSE>>), shape |-> Pick(<<"scalar", "vector", "tensor">>)]
Draw(x) == [ops |-> [k \in 1..RandomElement(8..20) |-> Op(k)], size |-> Pick(<<"short", "odd", "even", "long">>), filled |-> Pick(<<TRUE, TRUE, FALSE>>)]
Init == scen = <<>> /\ done = FALSE
Next == ~done /\ (IF scen = <<>> THEN scen' = <<Draw(done)>> /\ UNCHANGED done ELSE done' = TRUE /\ UNCHANGED scen)
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(scen[1]))
=============================================================================
