-------------------------------- MODULE InfoBox --------------------------------
(* Design of a report: a mesh is edited, then reported on line after line.  A complete
   report satisfies the relation of InfoRel; the report of an earlier mesh satisfies it
   only when that mesh had the same facts.                                             *)
EXTENDS InfoRel
CONSTANT MaxOps
VARIABLES m, pts, r, pc, old, n
vars == <<m, pts, r, pc, old, n>>
None == [has |-> FALSE, f |-> <<>>, c |-> <<>>]
Blank == [nnode |-> -1, ncell |-> -1, nface |-> -1, axes |-> <<>>, cells |-> <<>>, faces |-> <<>>, bocos |-> <<>>, marks |-> <<>>, params |-> <<>>]
Init == /\ pts = << <<0, 0, 0>> >> /\ r = Blank /\ pc = "edit" /\ old = <<>> /\ n = 0
        /\ m = [nnode |-> 1, ncell |-> 0, nface |-> 0, cells |-> <<>>, int |-> None, bnd |-> None, mix |-> None, marks |-> <<>>, params |-> <<>>]
Edit(m2, p2) == pc = "edit" /\ n < MaxOps /\ n' = n + 1 /\ m' = m2 /\ pts' = p2 /\ UNCHANGED <<r, pc, old>>
AddNode == Len(pts) < 3 /\ \E x, y \in {-1, 2} : Edit([m EXCEPT !.nnode = @ + 1], Append(pts, <<x, 0, y>>))
NodesOf(t) == IF t = "tri3" THEN <<0, 1, 2>> ELSE <<0, 1, 2, 3>>
AddCell == Len(m.cells) < 3 /\ \E t \in {"tri3", "quad4"} : Edit([m EXCEPT !.ncell = @ + 1, !.cells = Append(@, <<Len(m.cells), t, NodesOf(t)>>)], pts)
AddMark == \E nm \in {"a", "b c"} : (\A k \in DOMAIN m.marks : m.marks[k].name # nm) /\ \E g \in {"node", "bdface"}, ix \in {<<>>, <<0, 1>>, <<2, 0>>} :
           Edit([m EXCEPT !.marks = Append(@, [name |-> nm, words |-> IF nm = "a" THEN <<"a">> ELSE <<"b", "c">>, geodim |-> g, index |-> ix])], pts)
AddFaces == ~m.bnd.has /\ \E q \in {<<"tri3">>, <<"tri3", "quad4">>} :
           Edit([m EXCEPT !.nface = Len(q), !.bnd = [has |-> TRUE, f |-> [k \in DOMAIN q |-> <<k - 1, q[k], NodesOf(q[k])>>], c |-> [k \in DOMAIN q |-> <<0, -1>>]]], pts)
AddParam == m.params = <<>> /\ Edit([m EXCEPT !.params = <<"step">>], pts)
Start == pc = "edit" /\ pc' = "nodes" /\ r' = Blank /\ UNCHANGED <<m, pts, old, n>>
\* the lines of the report; min and max as a running comparison, the mean as a quotient
RECURSIVE Fold(_, _, _)
Fold(s, k, a) == IF k > Len(s) THEN a ELSE Fold(s, k + 1, [lo |-> IF s[k] < a.lo THEN s[k] ELSE a.lo, hi |-> IF s[k] > a.hi THEN s[k] ELSE a.hi, sum |-> a.sum + s[k]])
Line(s) == LET f == Fold(s, 1, [lo |-> s[1], hi |-> s[1], sum |-> 0]) IN <<125 * f.lo, (125 * f.sum) \div Len(s), 125 * f.hi>>
Nodes == pc = "nodes" /\ pc' = "cells" /\ UNCHANGED <<m, pts, old, n>>
         /\ r' = [r EXCEPT !.nnode = Len(pts), !.axes = [a \in 1..3 |-> Line([k \in DOMAIN pts |-> pts[k][a]])], !.ncell = m.ncell]
Sum(s) == IF s = <<>> THEN [kind |-> "empty", lo |-> 0, hi |-> 0, n |-> 0]
          ELSE LET f == Fold(s, 1, [lo |-> s[1], hi |-> s[1], sum |-> 0]) IN
               IF \A k \in DOMAIN s : s[k] = s[1] + k - 1 THEN [kind |-> "range", lo |-> s[1], hi |-> s[Len(s)], n |-> -1] ELSE [kind |-> "list", lo |-> f.lo, hi |-> f.hi, n |-> Len(s)]
Block(els, t) == LET s == NumsOf(els, t) IN [t |-> t, n |-> Len(s), m |-> Len(NodesOf(t)), ix |-> Sum(s), idx |-> s, els |-> [k \in DOMAIN s |-> NodesOf(t)]]
Told(bs) == {bs[k].t : k \in DOMAIN bs}
Cells == pc = "cells" /\ (IF TypesOf(m.cells) = Told(r.cells) THEN pc' = "faces" /\ UNCHANGED r
                          ELSE \E t \in TypesOf(m.cells) \ Told(r.cells) : r' = [r EXCEPT !.cells = Append(@, Block(m.cells, t))] /\ UNCHANGED pc)
         /\ UNCHANGED <<m, pts, old, n>>
FaceLine == [kind |-> "boundary", types |-> IF "quad4" \in TypesOf(m.bnd.f) THEN <<"tri3", "quad4">> ELSE <<"tri3">>, blocks |-> <<>>]
Faces == /\ pc = "faces" /\ UNCHANGED <<m, pts, old, n>>
         /\ IF ~m.bnd.has THEN r' = [r EXCEPT !.nface = 0] /\ pc' = "marks"
            ELSE IF r.faces = <<>> THEN r' = [r EXCEPT !.nface = m.nface, !.faces = <<FaceLine>>] /\ UNCHANGED pc
            ELSE LET d == r.faces[1].blocks IN
                 IF Len(d) = Len(r.faces[1].types) THEN pc' = "marks" /\ UNCHANGED r
                 ELSE r' = [r EXCEPT !.faces[1].blocks = Append(d, Block(m.bnd.f, r.faces[1].types[Len(d) + 1]))] /\ UNCHANGED pc
Marks == /\ pc = "marks" /\ UNCHANGED <<m, pts, old, n>>
         /\ IF Len(r.marks) < Len(m.marks)
            THEN LET x == m.marks[Len(r.marks) + 1] IN r' = [r EXCEPT !.marks = Append(@, [name |-> x.name, geodim |-> x.geodim, ix |-> Sum(x.index)]), !.bocos = @ \o x.words] /\ UNCHANGED pc
            ELSE r' = [r EXCEPT !.params = m.params] /\ pc' = "done"
Again == pc = "done" /\ old = <<>> /\ old' = << <<m, pts, r>> >> /\ pc' = "edit" /\ UNCHANGED <<m, pts, r, n>>
Next == AddNode \/ AddCell \/ AddMark \/ AddFaces \/ AddParam \/ Start \/ Nodes \/ Cells \/ Faces \/ Marks \/ Again
Spec == Init /\ [][Next]_vars
Sound == pc = "done" => MeshTold(m, pts, r) = {} /\ \A k \in DOMAIN r.faces : \A i \in DOMAIN r.faces[k].blocks : Listed(r.faces[k].blocks[i], m.bnd.f)
Ends(s) == IF s = <<>> THEN <<>> ELSE <<MinOf(SetOfSeq(s)), MaxOf(SetOfSeq(s)), Len(s)>>
Known(mm, pp) == <<Len(pp), [a \in 1..3 |-> <<Ends([k \in DOMAIN pp |-> pp[k][a]]), SumSeq([k \in DOMAIN pp |-> pp[k][a]])>>], mm.ncell, [t \in TypesOf(mm.cells) |-> Ends(NumsOf(mm.cells, t))],
                   mm.nface, mm.bnd.f, [k \in DOMAIN mm.marks |-> <<mm.marks[k].name, mm.marks[k].geodim, Ends(mm.marks[k].index)>>], mm.params>>
Faithful == (pc = "edit" /\ old # <<>> /\ Known(m, pts) # Known(old[1][1], old[1][2])) => MeshTold(m, pts, old[1][3]) # {}
\* a report that leaves out a line, or repeats one, is not one
Complete == pc = "done" => /\ (r.marks # <<>> => MeshTold(m, pts, [r EXCEPT !.marks = Tail(@)]) # {} /\ MeshTold(m, pts, [r EXCEPT !.marks = Append(@, @[1])]) # {})
                           /\ (r.cells # <<>> => MeshTold(m, pts, [r EXCEPT !.cells = Tail(@)]) # {} /\ MeshTold(m, pts, [r EXCEPT !.cells = Append(@, @[1])]) # {})
                           /\ (r.faces # <<>> => MeshTold(m, pts, [r EXCEPT !.faces[1].blocks = Tail(@)]) # {} /\ MeshTold(m, pts, [r EXCEPT !.faces = <<>>]) # {})
                           /\ MeshTold(m, pts, [r EXCEPT !.axes[2] = <<@[1], @[2] + 250, @[3]>>]) # {}
=============================================================================
