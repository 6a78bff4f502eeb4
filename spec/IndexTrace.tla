------------------------------ MODULE IndexTrace -------------------------------
(* Recorded histories of index lists and connectivities.  Every event tells the
   observations of all living objects after it (objs, cons); the expected ones
   follow from those after the previous event.
     objs[o]  type, size, list, items (element access one by one), rng
     cons[c]  nelem, els: <<number, type, nodes>> in storage order by type,
              all: numbers listed, tup: <<number, nodes>>, nodes: node list, ok: consistency check *)
EXTENDS TraceLib
VARIABLES c, l
Cl(t, b) == IF b THEN {} ELSE {t}
Rg(s) == {s[k] : k \in DOMAIN s}
Run(a, k) == [i \in 1..k |-> a + i - 1]
Plus(s, k) == [i \in DOMAIN s |-> s[i] + k]
IsRun(s) == \A i \in DOMAIN s : s[i] = s[1] + i - 1
Ev(i, j) == Cases[i].ev[j]
Objs(i, j) == IF j = 0 THEN <<>> ELSE Ev(i, j).objs
Cons(i, j) == IF j = 0 THEN <<>> ELSE Ev(i, j).cons
\* bags, as counts
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ (s = t \/ \A x \in Rg(s) \cup Rg(t) : Count(s, x) = Count(t, x))
\* ---- what one object shows is coherent
ObjFails(o) ==
  Cl("size is that of the listing", o.size = Len(o.list))
  \cup Cl("element access gives the listed elements", o.items = o.list)
  \cup Cl("a range is the listing from first to last", o.type # "range" \/ o.list = Run(o.rng[1], o.rng[2] - o.rng[1] + 1))
  \cup Cl("the range is that of a range only", (o.type = "range") <=> (o.rng # <<>>))
  \cup Cl("it can be printed", o.str)
Nums(q) == [k \in DOMAIN q.els |-> q.els[k][1]]
Distinct(s) == Cardinality(Rg(s)) = Len(s)
ConFails(q) ==
  Cl("the number of elements is right", q.nelem = Len(q.els))
  \cup Cl("all numbers are listed", SameBag(q.all, Nums(q)))
  \cup Cl("every element is listed with its nodes", SameBag(q.tup, [k \in DOMAIN q.els |-> <<q.els[k][1], q.els[k][3]>>]))
  \cup Cl("the node list is the set of nodes of the elements", Distinct(q.nodes) /\ Rg(q.nodes) = UNION {Rg(q.els[k][3]) : k \in DOMAIN q.els})
  \cup Cl("the check accepts exactly the numberings 0..n-1", Len(q.els) = 0 \/ (q.ok <=> Rg(Nums(q)) = 0..(Len(q.els) - 1)))
Shown(i, j) == UNION {ObjFails(Objs(i, j)[o]) : o \in DOMAIN Objs(i, j)} \cup UNION {ConFails(Cons(i, j)[q]) : q \in DOMAIN Cons(i, j)}
\* ---- expected change
SameObj(a, b) == a.list = b.list
SameCon(a, b) == a.els = b.els
Others(i, j, o, q) ==       \* all objects but o and q are as before (0: none)
  Cl("no other index list changes", \A k \in DOMAIN Objs(i, j - 1) : k = o \/ SameObj(Objs(i, j - 1)[k], Objs(i, j)[k]))
  \cup Cl("no other connectivity changes", \A k \in DOMAIN Cons(i, j - 1) : k = q \/ SameCon(Cons(i, j - 1)[k], Cons(i, j)[k]))
NewObj(i, j, s) == LET O == Objs(i, j) IN
  Cl("a new list is made", Len(O) = Len(Objs(i, j - 1)) + 1)
  \cup Cl("the list denotes the right sequence", O[Len(O)].list = s)
NewCon(i, j, s) == LET O == Cons(i, j) IN
  Cl("a new connectivity is made", Len(O) = Len(Cons(i, j - 1)) + 1)
  \cup Cl("elements keep number, type and nodes", SameBag(O[Len(O)].els, s))
RECURSIVE Merged(_, _, _)
Merged(C, cs, sh) == IF cs = <<>> THEN <<>> ELSE
  LET e == C[cs[1]].els IN [k \in DOMAIN e |-> <<e[k][1] + sh, e[k][2], e[k][3]>>] \o Merged(C, Tail(cs), sh + Len(e))
Rank(s, x) == Cardinality({k \in DOMAIN s : s[k] < x})
Fails(i, j) ==
  LET e == Ev(i, j) O == Objs(i, j - 1) C == Cons(i, j - 1) IN
  (IF e.exc # "" THEN Cl("the operation succeeds", e.op = "slice" /\ e.arg = "outside") ELSE
  CASE e.op \in {"range", "list"} -> NewObj(i, j, e.seq) \cup Others(i, j, 0, 0)
    [] e.op = "shift" -> NewObj(i, j, Plus(O[e.o].list, e.by)) \cup Others(i, j, 0, 0)
    [] e.op = "concat" -> NewObj(i, j, O[e.o].list \o O[e.p].list) \cup Others(i, j, 0, 0)
    [] e.op = "append" -> Cl("appended", Objs(i, j)[e.o].list = O[e.o].list \o e.seq) \cup Others(i, j, e.o, 0)
    [] e.op = "compress" -> Others(i, j, 0, 0)
         \cup Cl("consecutive integers become a range, others stay a list",
                 LET o == O[e.o] IN Len(o.list) = 0 \/ (Objs(i, j)[e.o].type = "range" <=> IsRun(o.list)))
    [] e.op = "slice" -> Others(i, j, 0, 0) \cup Cl("an index outside the list is refused", e.arg # "outside")
         \cup Cl("a slice holds the chosen elements", e.res = [k \in DOMAIN e.at |-> O[e.o].list[e.at[k]]])
    [] e.op = "newcon" -> NewCon(i, j, <<>>) \cup Others(i, j, 0, 0)
    [] e.op \in {"add", "addobj"} ->
         LET num == IF e.op = "addobj" THEN O[e.o].list ELSE IF e.default THEN Run(Len(C[e.c].els), Len(e.rows)) ELSE e.seq
         IN Others(i, j, 0, e.c)
            \cup Cl("added elements keep number, type and nodes, and so do the former ones",
                    SameBag(Cons(i, j)[e.c].els, C[e.c].els \o [k \in DOMAIN e.rows |-> <<num[k], e.t, e.rows[k]>>]))
    [] e.op = "merge" -> NewCon(i, j, Merged(C, e.cs, 0)) \cup Others(i, j, 0, 0)
    [] e.op = "compressed" -> LET s == C[e.c].els q == Nums(C[e.c]) IN
         NewCon(i, j, [k \in DOMAIN s |-> <<Rank(q, s[k][1]), s[k][2], s[k][3]>>]) \cup Others(i, j, 0, 0)
         \cup Cl("the compressed table is in the order of the numbers",
              /\ Len(e.ind) = Len(s) + 1 /\ e.ind[1] = 0 /\ e.ind[Len(s) + 1] = Len(e.val) /\ e.zcheck
              /\ \A k \in DOMAIN s : LET r == Rank(q, s[k][1]) + 1 IN SubSeq(e.val, e.ind[r] + 1, e.ind[r + 1]) = s[k][3])
    [] e.op = "nodesof" -> Others(i, j, 0, 0)
         \cup Cl("the nodes of the named elements, once each",
              Distinct(e.res) /\ Rg(e.res) = UNION {Rg(C[e.c].els[k][3]) : k \in {x \in DOMAIN C[e.c].els : C[e.c].els[x][1] \in Rg(e.seq)}})
    [] OTHER -> {"unknown event"})
  \cup Shown(i, j) \cup Cl("arguments are left as they are", e.kept)
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(c, l + 1) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
