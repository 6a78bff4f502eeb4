------------------------------ MODULE GenHist --------------------------------
(* Scenarios: histories of operations of one process on several objects. *)
EXTENDS Hist, Json
CONSTANTS MaxOps, MaxObjs
VARIABLES ops, s, g, done, theme   \* g: for every object what may be done with it
vars == <<ops, s, g, done, theme>>
Pick(q) == LET n == Len(ops) IN q[RandomElement({i \in DOMAIN q : n >= 0})]
Some(P) == LET n == Len(ops) IN IF P = {} THEN {} ELSE {RandomElement({i \in P : n >= 0})}
E(op, x, a) == [op |-> op, x |-> x, a |-> a]
Do(e, gg) == ops' = Append(ops, e @@ [terms |-> [i \in DOMAIN After(s, e) |-> After(s, e)[i].t]]) /\ s' = After(s, e) /\ g' = gg /\ done' = FALSE
\* what is known of an object: dim, faces (none, split, mixed, bare: no way to have faces)
Info(f) == [dim |-> IF f = "g2" THEN 2 ELSE 3, f |-> CASE f \in {"i2", "i3", "v4"} -> "mixed" [] OTHER -> "none", ic3 |-> f \notin {"g4", "g2", "c27"}]
Init == ops = <<>> /\ s = <<>> /\ g = <<>> /\ done = FALSE /\ theme \in {"all", "grid", "file"}
Room == Len(s) < MaxObjs /\ Len(ops) < MaxOps
O(q) == [i \in DOMAIN q |-> E("open", 0, q[i])]
Sources == CASE theme = "all" -> O(<<"g3", "g4", "g2", "c3", "c4", "i2", "i3", "v4", "vtu">>) \o <<E("cube", 0, "2"), E("cube", 0, "3"), E("user", 0, "c27"), E("user", 0, "c27"), E("user", 0, "mix")>>
             [] theme = "grid" -> O(<<"vtu", "c3">>) \o <<E("cube", 0, "2"), E("user", 0, "mix")>>
             [] theme = "file" -> O(<<"g3", "g4", "c3", "c4", "i2", "i3", "v4", "v4">>)
Make == /\ Room /\ \E e \in {Pick(Sources)} :
           Do(e, Append(g, IF e.op = "open" THEN Info(e.a) ELSE Info(IF e.a = "c27" THEN "c27" ELSE "cube")))
Cli == /\ Room /\ \E e \in {Pick(<<E("cli2", 0, "g3"), E("cli3", 0, "g3"), E("cli3", 0, "i2"), E("cli2", 0, "i2"), E("clivtk", 0, "g3"), E("clivtk", 0, "c3"), E("cli3", 0, "c3"), E("cli2", 0, "c3"), E("clivtk", 0, "g4")>>)} :
          Do(e, Append(g, IF e.op = "clivtk" THEN [Info("vtu") EXCEPT !.ic3 = e.a # "g4"] ELSE Info("i2")))
Is(k) == {i \in DOMAIN s : s[i].k = k}
Export == /\ Room /\ \E x \in Some(Is("reader")) : Do(E("export", x, ""), Append(g, g[x]))
ExportV == /\ Room /\ \E x \in Some(Is("grid")) : Do(E("export", x, ""), Append(g, [Info("vtu") EXCEPT !.ic3 = g[x].ic3]))
Openf == /\ Room /\ \E x \in Some(Is("file")) : Do(E("openf", x, ""), Append(g, g[x]))
Vtk == /\ Room /\ \E x \in Some({i \in Is("mesh") : g[i].f # "mixed"}) : Do(E("vtk", x, ""), Append(g, g[x]))
Extrude == /\ Room /\ \E x \in Some({i \in Is("mesh") : g[i].dim = 2 /\ g[i].f = "none"}) : Do(E("extrude", x, ""), Append(g, Info("cube")))
Write == /\ Room /\ \E x \in Some({i \in Is("mesh") : g[i].ic3 /\ g[i].dim = 3}), v \in {Pick(<<"2", "3", "4">>)} :
            Do(E("write", x, v), Append([g EXCEPT ![x].f = IF @ = "none" THEN "split" ELSE @], Info("i2")))
Again == /\ Room /\ \E v \in {Pick(IF theme = "grid" THEN <<"v", "v", "v", "4">> ELSE <<"3", "4", "v">>)} :
            \E x \in Some({i \in Is("mesh") : IF v = "v" THEN g[i].f # "mixed" ELSE g[i].ic3 /\ g[i].dim = 3}) :
            Do(E("again", x, v), Append([g EXCEPT ![x].f = IF @ = "none" /\ v # "v" THEN "split" ELSE @], IF v = "v" THEN g[x] ELSE Info("i2")))
Ch(op, P) == /\ Len(ops) < MaxOps /\ \E x \in Some(P) : Do(E(op, x, ""), [g EXCEPT ![x].f = IF op \in {"derive", "prep"} /\ @ = "none" THEN "split" ELSE @])
M == Is("mesh")
Derive == Ch("derive", {i \in M : g[i].f = "none" \/ s[i].last = "derive"})
PrepM == Ch("prep", {i \in M : g[i].ic3 /\ g[i].dim = 3})
Reread == Ch("reread", Is("reader"))
Touch == \E op \in {Pick(<<"unmark", "retype", "param", "pop", "popcell", "part", "scale">>)} :
         Ch(op, IF op = "unmark" THEN {i \in M : g[i].f = "none"} ELSE M)
Move == Ch("move", Is("grid"))
Stop == Len(ops) >= MaxOps - 3 /\ done' = TRUE /\ UNCHANGED <<ops, s, g>>
All == Make \/ Cli \/ Export \/ Export \/ ExportV \/ Openf \/ Vtk \/ Extrude \/ Write \/ Again \/ Derive \/ PrepM \/ Reread \/ Touch \/ Touch \/ Move \/ Stop
Grid == Make \/ Make \/ Export \/ ExportV \/ Vtk \/ Vtk \/ Extrude \/ Again \/ Again \/ Again \/ Touch \/ Move \/ Move \/ Stop
File == Make \/ Make \/ Export \/ Export \/ Export \/ Again \/ PrepM \/ Reread \/ Touch \/ Stop
Next == ~done /\ theme' = theme /\ CASE theme = "all" -> All [] theme = "grid" -> Grid [] theme = "file" -> File
Spec == Init /\ [][Next]_vars
\* the scenario and the terms whose values are needed (terms of every object after every step)
Emit == done => PrintT("@@" \o ToJson(ops))
=============================================================================
