------------------------------- MODULE GenLife -------------------------------
(* Scenarios: lives of a mesh, as sequences of operations with abstract
   arguments (which faces a mark takes, which version and byte order a file
   has, which fields are carried).  The harness gives them concrete values.
   The state tells which operations make sense:
     faces   none (cells only) | split (derived) | mixed (read from a file)
     kind    kinds of the marks in order: node | list | range
     ready   marks are ranges that cover the boundary (after Prepare)         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxMarks, MaxSteps, MaxWrites, Ops
CONSTANTS Mesh0, Fields0         \* kinds of initial meshes, kinds of field sets
VARIABLES ops, faces, kind, written, done
vars == <<ops, faces, kind, written, done>>
\* (arguments are drawn inside the actions, so that a simulation draws operations evenly)
Pick(s) == s[RandomElement(DOMAIN s)]
Rel == <<"free", "free", "free", "side", "some", "rest", "any">>
Type == <<"boundary", "boundary", "boundary", "perio_cart", "perio_cylx", "perio_cyly", "perio_cylz">>
Names == <<"plain", "plain", "plain", "long", "space", "unmarked">>
Hows == <<"same", "same", "permuted", "foreign">>
O(r) == ops' = Append(ops, r)
Init == /\ \E m \in Mesh0, f \in Fields0, p \in {"none", "part"}, s \in {"none", "state", "wgt"} :
             ops = <<[op |-> "start", mesh |-> m, fields |-> f, part |-> p, state |-> s]>>
        /\ faces = "none" /\ kind = <<>> /\ written = 0 /\ done = FALSE
Mark(ks) == /\ "mark" \in Ops /\ written = 0 /\ Len(kind) < MaxMarks
            /\ \E k \in {Pick(ks)} :
               /\ (k # "node" => faces = "split")
               /\ O([op |-> "mark", kind |-> k, rel |-> Pick(Rel), type |-> Pick(Type), name |-> Pick(Names)])
               /\ kind' = Append(kind, k)
            /\ UNCHANGED <<faces, written, done>>
Derive == /\ "derive" \in Ops /\ faces \in {"none"} /\ O([op |-> "derive"]) /\ faces' = "split" /\ UNCHANGED <<kind, written, done>>
NodesLeft == \E i \in DOMAIN kind : kind[i] = "node"
Convert == /\ "derive" \in Ops /\ faces = "split" /\ written = 0 /\ O([op |-> "convert"])
           /\ kind' = [i \in DOMAIN kind |-> IF kind[i] = "node" THEN "list" ELSE kind[i]] /\ UNCHANGED <<faces, written, done>>
Unmarked == /\ "derive" \in Ops /\ faces = "split" /\ ~NodesLeft /\ written = 0 /\ O([op |-> "unmarked"])
            /\ kind' = Append(kind, "list") /\ UNCHANGED <<faces, written, done>>
Reindex == /\ "derive" \in Ops /\ faces = "split" /\ ~NodesLeft /\ Len(kind) > 0 /\ written = 0
           /\ ops[Len(ops)].op = "unmarked"      \* the renumbering wants a complete set of marks
           /\ O([op |-> "reindex"]) /\ kind' = [i \in DOMAIN kind |-> "range"] /\ UNCHANGED <<faces, written, done>>
Complete == /\ "derive" \in Ops /\ faces = "split" /\ ~NodesLeft /\ Len(kind) > 0 /\ written = 0
            /\ ops' = ops \o <<[op |-> "unmarked"], [op |-> "reindex"]>>
            /\ kind' = [i \in DOMAIN kind |-> "range"] /\ UNCHANGED <<faces, written, done>>
Prepare == /\ "prepare" \in Ops /\ ops[Len(ops)].op \notin {"start"} /\ O([op |-> "prepare", ver |-> Pick(<<2, 3>>)])
           /\ faces' = (IF faces = "none" THEN "split" ELSE faces) /\ UNCHANGED <<kind, written, done>>
Write == /\ "write" \in Ops /\ written < MaxWrites /\ O([op |-> "write", ver |-> Pick(<<2, 3>>), endian |-> Pick(<<"native", "little", "big">>)])
               /\ written' = written + 1 /\ faces' = (IF faces = "none" THEN "split" ELSE faces) /\ UNCHANGED <<kind, done>>
\* the file just written is read, as it is or with its sections in another order / with foreign sections
Read == /\ "read" \in Ops /\ ops[Len(ops)].op = "write" /\ O([op |-> "read", how |-> Pick(Hows)])
             /\ faces' = "mixed" /\ kind' = [i \in DOMAIN kind |-> "range"] /\ UNCHANGED <<written, done>>
Stop == /\ ~done /\ Len(ops) > 2 /\ ops[Len(ops)].op \in {"read", "prepare", "reindex", "write", "unmarked", "convert"}
        /\ ("read" \in Ops => ops[Len(ops)].op = "read") /\ done' = TRUE /\ UNCHANGED <<ops, faces, kind, written>>
Step == Mark(<<"node">>) \/ Mark(<<"list", "range">>) \/ Mark(<<"node", "list">>)
        \/ Derive \/ Convert \/ Unmarked \/ Reindex \/ Complete \/ Prepare \/ Write \/ Read
Next == /\ ~done /\ ((Len(ops) < MaxSteps /\ Step) \/ Stop)
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(ops))
=============================================================================
