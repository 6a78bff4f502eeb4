-------------------------------- MODULE EditBox --------------------------------
(* Design of the edits, on one tetrahedron: two meshes that share the arrays of their
   coordinates with the caller.  Arrays live in a heap; an edit makes new arrays and
   never changes one.  Every step satisfies the relation of EditRel, and what the
   caller and the other mesh see does not change.  The same module emits histories. *)
EXTENDS EditRel, Json
CONSTANTS Gen, MaxOps
VARIABLES heap, ref, m, ops, ok, done
vars == <<heap, ref, m, ops, ok, done>>
\* state level, so that TLC does not evaluate it only once
Pick(s) == s[RandomElement(DOMAIN s \cup {i \in {0} : Len(ops) < 0})]
Tet == <<0, "tetra4", <<0, 1, 2, 3>>>>
Faces == [i \in 1..4 |-> <<i - 1, "tri3", Side(Tet, i)>>]
BndTab == [has |-> TRUE, f |-> Faces, c |-> [i \in 1..4 |-> <<0, -1>>]]
EmptyTab == [has |-> TRUE, f |-> <<>>, c |-> <<>>]
Mk(nm, gd, ix) == [key |-> nm, name |-> nm, geodim |-> gd, type |-> "boundary", repr |-> "list", index |-> ix, per |-> <<>>]
Pts(h, r) == [i \in 1..4 |-> <<h[r[1]][i], h[r[2]][i], h[r[3]][i]>>]
Init == /\ heap = << <<0, 1024, 0, 0>>, <<0, 0, 1024, 0>>, <<0, 0, 0, 1024>> >> /\ ref = <<1, 2, 3>>
        /\ m = [nnode |-> 4, ncell |-> 1, hascells |-> TRUE, cells |-> <<Tet>>, int |-> NoTable, bnd |-> NoTable, mix |-> NoTable, nface |-> 0,
                marks |-> <<>>, part |-> "none", params |-> <<>>, nd |-> << <<"a", "v">> >>, cd |-> << <<"a", "w">>, <<"b", "x">> >>, ndof |-> 1]
        /\ ops = <<>> /\ ok = TRUE /\ done = FALSE
Full(mm, h, r) == [k \in DOMAIN mm \cup {"pts"} |-> IF k = "pts" THEN Pts(h, r) ELSE mm[k]]
Now == Full(m, heap, ref)
\* a step: new heap, references, mesh; the relation; what the history says
Do(h2, r2, m2, fails, rec) == /\ ~done /\ Len(ops) < MaxOps /\ heap' = h2 /\ ref' = r2 /\ m' = m2 /\ ok' = (ok /\ fails = {})
                              /\ ops' = Append(ops, rec) /\ UNCHANGED done
Set(mm, k, v) == [mm EXCEPT ![k] = v]
Nums == <<1, 2, -1, 0, 3>>
Scale == \E a, b \in (IF Gen THEN {Pick(Nums)} ELSE {2, -1}) : \E e \in (IF Gen THEN {Pick(Nums)} ELSE {1}) : \E d \in (IF Gen THEN {Pick(<<1, 1, 2>>)} ELSE {1, 2}) :
  LET num == <<a, b, e>>
      h2 == heap \o [k \in 1..3 |-> [i \in 1..4 |-> (heap[ref[k]][i] * num[k]) \div d]]
      r2 == <<Len(heap) + 1, Len(heap) + 2, Len(heap) + 3>>
  IN /\ (\A k \in 1..3, i \in 1..4 : heap[ref[k]][i] % d = 0 /\ heap[ref[k]][i] \in -100000..100000)
     /\ Do(h2, r2, m, ScaleFails(Now, Full(m, h2, r2), num, d), [op |-> "scale", num |-> num, den |-> d, as |-> Pick(<<"list", "tuple", "array">>)])
Fns == <<"same", "swap", "shift", "shear", "flat", "copy", "turn">>
Morph == (\A k \in 1..3, i \in 1..4 : heap[ref[k]][i] \in -100000..100000) /\ \E k \in (IF Gen THEN {Pick(Fns)} ELSE {"swap", "copy"}) :
  LET p == [i \in 1..4 |-> Fn(k, Pts(heap, ref)[i])]
      h2 == IF k \in {"swap", "copy"} THEN heap ELSE heap \o [a \in 1..3 |-> [i \in 1..4 |-> p[i][a]]]
      r2 == CASE k = "swap" -> <<ref[2], ref[1], ref[3]>> [] k = "copy" -> <<ref[1], ref[1], ref[3]>> [] OTHER -> <<Len(heap) + 1, Len(heap) + 2, Len(heap) + 3>>
  IN Do(h2, r2, m, MorphFails(Now, Full(m, h2, r2), k), [op |-> "morph", fn |-> k, as |-> Pick(<<"array", "list", "tuple">>)])
BadMorph == Do(heap, ref, m, {}, [op |-> "badmorph", how |-> Pick(<<"raises", "short", "two">>)])
Pop(w) == \E nm \in (IF Gen THEN {Pick(<<"a", "b", "any", "any", "any", "nothing", "A">>)} ELSE {"a", "b", "c"}) :
  LET m2 == Set(m, w, Without(m[w], nm)) IN
  Do(heap, ref, m2, PopFails(Now, Full(m2, heap, ref), w, nm, SelectSeq(m[w], LAMBDA x : x[1] = nm)), [op |-> "pop", which |-> w, name |-> nm])
PopNode == Pop("nd")
PopCell == Pop("cd")
AddMark == \E nm \in (IF Gen THEN {Pick(<<"w1", "w2", "in let", "any">>)} ELSE {"w1", "w2"}) : \E gd \in (IF Gen THEN {Pick(<<"bdnode", "bdface", "node", "face">>)} ELSE {"bdnode", "bdface"}) :
  LET mk == Mk(nm, gd, IF gd = "bdface" THEN <<0, 1>> ELSE <<0, 1, 2, 3>>)
      keep == SelectSeq(m.marks, LAMBDA x : x.name # nm)
      m2 == Set(m, "marks", Append(keep, mk)) IN
  Do(heap, ref, m2, AddMarkFails(Now, Full(m2, heap, ref), mk), [op |-> "addmark", name |-> nm, geodim |-> gd, size |-> Pick(<<"few", "all", "rest", "none">>)])
DropMark == \E nm \in (IF Gen THEN {Pick(<<"any", "any", "nothing">>)} ELSE {"w1", "none"}) :
  LET m2 == Set(m, "marks", SelectSeq(m.marks, LAMBDA x : x.name # nm)) IN
  Do(heap, ref, m2, DropMarkFails(Now, Full(m2, heap, ref), nm, IF nm \in MarkNames(m) THEN "" ELSE "KeyError"), [op |-> "dropmark", name |-> nm])
Counted(mm) == Set(mm, "nface", CountFaces(mm))
AddFaces == \E k \in (IF Gen THEN {Pick(<<"internal", "boundary", "mixed", "bad">>)} ELSE {"internal", "boundary", "mixed", "bad"}) :
  LET tab == IF k = "internal" THEN EmptyTab ELSE BndTab
      m2 == IF k = "bad" THEN m ELSE Counted(Set(m, KindKey(k), tab)) IN
  Do(heap, ref, m2, AddFacesFails(Now, Full(m2, heap, ref), k, tab, IF k = "bad" THEN "x" ELSE ""), [op |-> "addfaces", kind |-> k])
PopFaces == \E k \in (IF Gen THEN {Pick(<<"internal", "boundary", "mixed", "bad">>)} ELSE {"internal", "boundary", "mixed", "bad"}) :
  LET m2 == IF k = "bad" THEN m ELSE Counted(Set(m, KindKey(k), NoTable)) IN
  Do(heap, ref, m2, PopFacesFails(Now, Full(m2, heap, ref), k), [op |-> "popfaces", kind |-> k])
Grow == /\ m.ncell = Len(m.cells)
        /\ LET m2 == Set(m, "cells", Append(m.cells, <<1, "tetra4", <<0, 2, 1, 3>>>>)) IN Do(heap, ref, m2, {}, [op |-> "grow"])
Check == LET good == CountsAgree(m) /\ FullyMarked(m) IN
         Do(heap, ref, m, CheckFails(Now, Now, IF good THEN "" ELSE "x"), [op |-> "check"])
Update == \E k \in (IF Gen THEN {Pick(<<"time", "step", "p q">>)} ELSE {"time", "step"}) :
  LET v == RandomElement(1..9)
      keep == SelectSeq(m.params, LAMBDA x : x[1] # k)
      m2 == Set(m, "params", Append(keep, <<k, "v">>)) IN
  Do(heap, ref, m2, UpdateFails(Now, Full(m2, heap, ref), << <<k, "v">> >>), [op |-> "params", key |-> k, value |-> v, how |-> Pick(<<"update", "update", "set">>)])
\* operations of other properties, so that edits meet all states
Faced == Gen /\ Do(heap, ref, m, {}, [op |-> Pick(<<"derive", "convert", "convert", "unmarked">>)])
Query == Gen /\ Do(heap, ref, m, {}, [op |-> Pick(<<"query", "query", "cells", "part">>)])
Stop == ~done /\ Len(ops) >= 2 /\ done' = TRUE /\ UNCHANGED <<heap, ref, m, ops, ok>>
Next == Scale \/ Morph \/ BadMorph \/ PopNode \/ PopCell \/ AddMark \/ DropMark \/ AddFaces \/ PopFaces \/ Grow \/ Check \/ Update \/ Faced \/ Query \/ (Gen /\ Stop)
Spec == Init /\ [][Next]_vars
Small == Len(ops) <= MaxOps
View == <<heap, ref, m, ok, Len(ops)>>
Good == ok
\* what the caller holds (arrays 1..3) and the other mesh (which refers to them) never changes
Heap0 == << <<0, 1024, 0, 0>>, <<0, 0, 1024, 0>>, <<0, 0, 0, 1024>> >>
CallerKept == \A i \in 1..3 : heap[i] = Heap0[i]
Counts == m.nface = CountFaces(m)
Emit == done => PrintT("@@" \o ToJson(ops))
=============================================================================
