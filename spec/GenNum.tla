------------------------------- MODULE GenNum ---------------------------------
(* Scenarios: interpolations on several objects, spectra of several signals *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
VARIABLES scen, done
vars == <<scen, done>>
Pick(s) == s[RandomElement({k \in DOMAIN s : Len(scen) >= 0})]
Xs(x) == [k \in 1..Pick(<<1, 1, 2, 3, 5>>) |-> Pick(<<-8, -8, -7, -5, -4, -3, -1, 0, 0, 1, 2, 4, 6, 7, 8, 8, 10, -9>>)]
Lim(x) == Pick(<<"none", "none", "low", "mid", "neg", "beyond", "zero">>)
Op(x) == [op |-> Pick(<<"value", "value", "grad", "grad", "spectrum", "spectrum", "spectrum", "spectrogram", "spectrogram", "dtstats", "minavgmax", "distance", "freqmap">>),
  order |-> Pick(<<1, 2, 3, 4, 4, 5, 6>>), series |-> Pick(<<"legendre", "polynomial">>), xs |-> Xs(x), scalar |-> Pick(<<FALSE, TRUE>>), fresh |-> Pick(<<FALSE, FALSE, TRUE>>), alias |-> Pick(<<FALSE, TRUE>>),
  n |-> Pick(<<3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16>>), long |-> Pick(<<16, 17, 20, 25, 30, 41>>), dt |-> Pick(<<1, 2, 3, 8, 0>>), lo |-> Lim(x), hi |-> Lim(x),
  nf |-> Pick(<<1, 2, 3>>), sig |-> Pick(<<"noise", "noise", "tone", "step", "const", "pulse">>), win |-> Pick(<<4, 5, 6, 7, 8, 9, 10, 0>>), scale |-> Pick(<<"one", "one", "eighth", "micro">>), sub |-> Pick(<<"all", "all", "some", "withtime">>), timed |-> Pick(<<TRUE, TRUE, TRUE, TRUE, TRUE, FALSE>>), kind |-> Pick(<<"int", "float", "float32">>)]
Init == scen = <<>> /\ done = FALSE
Next == ~done /\ (IF scen = <<>> THEN scen' = <<[k \in 1..Pick(<<3, 6, 8>>) |-> Op(k)]>> /\ UNCHANGED done ELSE done' = TRUE /\ UNCHANGED scen)
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(scen[1]))
=============================================================================
