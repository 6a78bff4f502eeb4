------------------------------- MODULE CubeAlg ---------------------------------
(* Design of the generator: nodes, then cells, then marks, one at a time in the order
   of loops over i, j, k (k fastest).  Checked against CubeRel, and the boundary of
   the result is derived from its cells and compared with the sides.              *)
EXTENDS CubeRel
CONSTANTS Max
VARIABLES n, m, phase
vars == <<n, m, phase>>
NIdx(p) == p[3] + (n[3] + 1) * (p[2] + (n[2] + 1) * p[1])
Pos(q, d) == <<q \div (d[2] * d[3]), (q \div d[3]) % d[2], q % d[3]>>
Init == n \in (1..Max) \X (1..Max) \X (1..Max) /\ m = [nnode |-> 0, ncell |-> 0, pts |-> <<>>, cells |-> <<>>, marks |-> <<>>] /\ phase = "nodes"
Node == /\ phase = "nodes"
        /\ IF m.nnode = NNodes(n) THEN phase' = "cells" /\ UNCHANGED m
           ELSE m' = [m EXCEPT !.nnode = @ + 1, !.pts = Append(@, Pos(m.nnode, Plus(n, <<1,1,1>>)))] /\ UNCHANGED phase
        /\ UNCHANGED n
Cell == /\ phase = "cells"
        /\ IF m.ncell = NCells(n) THEN phase' = "marks" /\ UNCHANGED m
           ELSE LET p == Pos(m.ncell, n) IN
                m' = [m EXCEPT !.ncell = @ + 1, !.cells = Append(@, <<m.ncell, "hexa8", [c \in 1..8 |-> NIdx(Box(p)[c])]>>)] /\ UNCHANGED phase
        /\ UNCHANGED n
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SeqOf(S \ {x})
Side1 == /\ phase = "marks"
         /\ IF Len(m.marks) = 6 THEN phase' = "done" /\ UNCHANGED m
            ELSE LET s == Sides[Len(m.marks) + 1] IN
                 m' = [m EXCEPT !.marks = Append(@, [name |-> s, type |-> "boundary", geodim |-> "bdnode", index |-> SeqOf({NIdx(p) : p \in SideOf(n, s)})])] /\ UNCHANGED phase
         /\ UNCHANGED n
Next == Node \/ Cell \/ Side1
Spec == Init /\ [][Next]_vars
Good == phase = "done" => CubeFails(n, m) = {}
Conform == phase = "done" => Conforming(m.cells)
Outer == {s \in AllSideSets(m.cells) : Cardinality(Sharing(m.cells, s)) = 1}
Held(mk) == {s \in Outer : s \subseteq SetOfSeq(mk.index)}
Tiles == phase = "done" => /\ \A s \in Outer : Cardinality({k \in 1..6 : s \in Held(m.marks[k])}) = 1
                           /\ \A k \in 1..6 : {PSet(m, SeqOf(s)) : s \in Held(m.marks[k])} = SideQuads(n, m.marks[k].name)
=============================================================================
