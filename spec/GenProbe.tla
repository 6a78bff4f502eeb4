-------------------------------- MODULE GenProbe -------------------------------
(* Histories of requests of probe variables, with files that come, change and go *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES scen, done
vars == <<scen, done>>
Pick(s) == s[RandomElement(DOMAIN s)]
Base == <<"X", "Y", "Z", "P", "RHO", "U-X", "U-Y", "U-Z", "T">>
Comp == <<"U", "Asound", "Mach", "S", "INVX+", "INVX-">>
All == Base \o Comp
Chance(p) == RandomElement(1..10) <= p
Files(p, q) == [k \in DOMAIN All |-> IF k <= Len(Base) THEN Chance(p) ELSE Chance(q)]
Var(x) == IF Chance(7) THEN Pick(Comp) ELSE IF Chance(9) THEN Pick(All) ELSE Pick(<<"time", "nothing", "u">>)
Op(x) == [op |-> Pick(<<"request", "request", "request", "request", "put", "remove", "map">>), var |-> Var(x), axis |-> Pick(<<"X", "X", "X", "Y", "Z", "P", "U-X", "Mach">>), kind |-> Pick(<<"time", "time", "freq">>)]
Draw(x) == [files |-> LET p == Pick(<<4, 8, 9, 10>>) q == Pick(<<0, 1, 3>>) IN Files(p, q), names |-> All,
            ops |-> [k \in 1..RandomElement(2..10) |-> Op(k)], still |-> Pick(<<TRUE, FALSE>>),
            shape |-> Pick(<<"map", "map", "map", "one time", "one point">>), coord |-> Pick(<<"line", "lines">>), prefix |-> Pick(<<"plain", "dots", "folder">>), verbose |-> Pick(<<TRUE, FALSE>>)]
Init == scen = <<>> /\ done = FALSE
Next == ~done /\ (IF scen = <<>> THEN scen' = <<Draw(done)>> /\ UNCHANGED done ELSE done' = TRUE /\ UNCHANGED scen)
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(scen[1]))
=============================================================================
