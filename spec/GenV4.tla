------------------------------- MODULE GenV4 ---------------------------------
(* Scenarios: a mesh goes through files of versions 2, 3 and 4.  The state
   tells what makes sense: the mesh (new, or read from a file), the fields it
   carries (wide ones exist in version 4 only) and the file on the disk.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, MaxMarks
VARIABLES ops, fresh, faces, marks, fields, file, done
vars == <<ops, fresh, faces, marks, fields, file, done>>
Pick(s) == LET n == Len(ops) IN s[RandomElement({i \in DOMAIN s : n >= 0})]
Meshes == <<"small", "mixed", "hexa", "prism", "tetra1", "prism1", "pyra1">>
Kinds == <<"none", "cons", "cons", "stats", "both", "both", "both", "partial", "ints", "odd", "wide", "special">>
States == <<"none", "state", "wgt", "wgt", "wgt">>
Rel == <<"free", "free", "side", "some", "rest">>
Type == <<"boundary", "boundary", "perio_cart", "perio_cart", "perio_cylx", "perio_cyly", "perio_cylz">>
Names == <<"plain", "plain", "long", "space", "slash", "unmarked">>
Init == ops = <<>> /\ fresh = TRUE /\ faces = FALSE /\ marks = 0 /\ fields = "none" /\ file = 0 /\ done = FALSE
O(r) == ops' = Append(ops, r)
Start == /\ ops = <<>>
         /\ \E k \in {Pick(Kinds)} :
            fields' = k /\ O([op |-> "start", mesh |-> Pick(Meshes), fields |-> k, state |-> Pick(States), part |-> Pick(<<"none", "part">>)])
         /\ UNCHANGED <<fresh, faces, marks, file, done>>
Mark == /\ ops # <<>> /\ fresh /\ marks < MaxMarks /\ marks' = marks + 1
        /\ O([op |-> "mark", kind |-> IF faces THEN Pick(<<"list", "range", "range", "node">>) ELSE "node", rel |-> Pick(Rel), type |-> Pick(Type), name |-> Pick(Names)])
        /\ UNCHANGED <<fresh, faces, fields, file, done>>
Derive == ops # <<>> /\ fresh /\ ~faces /\ O([op |-> "derive"]) /\ faces' = TRUE /\ UNCHANGED <<fresh, marks, fields, file, done>>
Give == /\ Len(ops) > 1 /\ ops[Len(ops)].op \in {"read", "write"} /\ \E k \in {Pick(Kinds)} : fields' = k /\ O([op |-> "give", fields |-> k, state |-> Pick(States)])
        /\ file' = 0 /\ UNCHANGED <<fresh, faces, marks, done>>
Write == /\ ops # <<>> /\ ops[Len(ops)].op # "write"
         /\ \E v \in {IF fields = "wide" THEN 4 ELSE Pick(<<2, 3, 4, 4, 4>>)} :
            file' = v /\ O([op |-> "write", ver |-> v, sol |-> Pick(<<TRUE, TRUE, TRUE, FALSE>>), endian |-> Pick(<<"native", "little", "big">>),
                            where |-> Pick(<<"new", "new", "old">>)])
         /\ fresh' = FALSE /\ faces' = TRUE /\ UNCHANGED <<marks, fields, done>>
\* the writer that wrote the last file writes once more
Again == /\ file # 0 /\ ops[Len(ops)].op = "write"
         /\ O([op |-> "again", ver |-> file, sol |-> Pick(<<TRUE, FALSE>>), where |-> Pick(<<"new", "old">>)])
         /\ UNCHANGED <<fresh, faces, marks, fields, file, done>>
Read == /\ file # 0 /\ ops[Len(ops)].op \in {"write", "again"} /\ O([op |-> "read", what |-> Pick(<<"both", "both", "both", "mesh">>), path |-> Pick(<<"str", "Path">>)])
        /\ fresh' = FALSE /\ faces' = TRUE /\ UNCHANGED <<marks, fields, file, done>>
Stop == Len(ops) >= 3 /\ ops[Len(ops)].op = "read" /\ done' = TRUE /\ UNCHANGED <<ops, fresh, faces, marks, fields, file>>
Step == Start \/ Mark \/ Derive \/ Give \/ Write \/ Again \/ Read
Next == ~done /\ ((Len(ops) < MaxOps /\ Step) \/ Stop)
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(ops))
=============================================================================
