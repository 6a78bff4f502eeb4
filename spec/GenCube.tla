-------------------------------- MODULE GenCube --------------------------------
(* Boxes to generate and ways to ask for them                                     *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES scen, done
vars == <<scen, done>>
Pick(s) == s[RandomElement(DOMAIN s)]
Size(x) == LET k == Pick(<<1, 2, 3, 4>>) IN
  CASE k = 1 -> <<RandomElement(1..3), RandomElement(1..3), RandomElement(1..3)>>
    [] k = 2 -> <<RandomElement(1..5), RandomElement(1..5), RandomElement(1..3)>>
    [] k = 3 -> LET t == IF RandomElement(1..3) = 1 THEN 10 ELSE RandomElement(4..40) IN Pick(<< <<t, 1, 1>>, <<1, t, 1>>, <<1, 1, t>> >>)
    [] k = 4 -> LET t == RandomElement(2..11) IN Pick(<< <<t, 2, 1>>, <<1, t, 2>>, <<2, 1, t>>, <<1, 2, t>> >>)
Draw(x) == [size |-> Size(x), by |-> Pick(<<"api", "api", "command", "command", "command">>), nz |-> Pick(<<"given", "default">>),
            fmt |-> Pick(<<"ic3", "ic3", "vtu">>), byname |-> Pick(<<TRUE, FALSE>>), order |-> RandomElement(1..6), twice |-> Pick(<<TRUE, FALSE>>),
            name |-> Pick(<<"cube", "a.b", "box 1", "sub/cube">>), prepare |-> Pick(<<"derive", "writer">>)]
Init == scen = <<>> /\ done = FALSE
Next == ~done /\ (IF scen = <<>> THEN scen' = <<Draw(done)>> /\ UNCHANGED done ELSE done' = TRUE /\ UNCHANGED scen)
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(scen[1]))
=============================================================================
