------------------------------- MODULE CgnsFile --------------------------------
(* Design: sections of elements of a zone written in any order, boundary
   conditions designating nodes, faces or cells, and their reading.
   Plane mesh of a quadrangle and two triangles, with four boundary edges.   *)
EXTENDS CgnsRel
CONSTANTS MaxBc, Kinds
Few == {"v", "f", "c", "r", "l", "w"}
Mid == {"v", "l"}
Pool == << <<"quad4", <<<<1, 2, 3, 4>>>>>>, <<"tri3", <<<<2, 5, 3>>, <<3, 5, 6>>>>>>, <<"bar2", <<<<1, 2>>, <<2, 5>>>>>>, <<"bar2", <<<<3, 4>>, <<4, 1>>>>>> >>
VARIABLES order, bcs, closed
vars == <<order, bcs, closed>>
Init == order = <<>> /\ bcs = <<>> /\ closed = FALSE
Section == Len(order) < 4 /\ \E k \in DOMAIN Pool : (\A i \in DOMAIN order : order[i] # k) /\ order' = Append(order, k) /\ UNCHANGED <<bcs, closed>>
RECURSIVE FirstOf(_)
FirstOf(i) == IF i = 1 THEN 1 ELSE FirstOf(i - 1) + Len(Pool[order[i - 1]][2])
Zone(b) == [pts |-> <<"p1", "p2", "p3", "p4", "p5", "p6">>, dim |-> 2, secs |-> [i \in DOMAIN order |-> <<Pool[order[i]][1], FirstOf(i), Pool[order[i]][2]>>], bcs |-> b]
FaceNums == Numbers(Zone(<<>>), 1)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Add == /\ Len(order) = 4 /\ ~closed /\ Len(bcs) < MaxBc
       /\ \E n \in {"a", "b"}, k \in Kinds :
          \E S \in CASE k = "v" -> {{1, 2}, {2, 5, 6}, 1..6} [] k \in {"f", "l"} -> (SUBSET FaceNums) \ {{}} [] k = "r" -> {{1, 2, 3}, {4}}
                     [] OTHER -> (SUBSET CellNums(Zone(<<>>))) \ {{}} :
          \* one family designates either nodes and faces, or cells
          /\ (\A i \in DOMAIN bcs : bcs[i].name = n => (LocOf(Zone(<<>>), bcs[i]) = "CellCenter") = (k \in {"c", "w"}))
          /\ bcs' = Append(bcs, [name |-> n, how |-> IF k \in {"l", "w"} THEN "elements" ELSE "points",
                                 loc |-> CASE k \in {"v", "r"} -> "Vertex" [] k = "f" -> "FaceCenter" [] OTHER -> "CellCenter", index |-> SetSeq(S)])
          /\ UNCHANGED <<order, closed>>
Close == Len(order) = 4 /\ ~closed /\ closed' = TRUE /\ UNCHANGED <<order, bcs>>
Next == Section \/ Add \/ Close
Spec == Init /\ [][Next]_vars
\* ---- the reading: sections by number, cells renumbered, conditions in order, those of one family joined
Z == Zone(bcs)
CellNo(n) == Cardinality({x \in CellNums(Z) : x < n})
CellSeq == LET N == SetSeq(CellNums(Z)) IN [k \in DOMAIN N |-> <<CellNo(N[k]), ElemOf(Z, N[k])[1], Down(ElemOf(Z, N[k])[2])>>]
IndexOf(b) == IF LocOf(Z, b) = "CellCenter" THEN {CellNo(n) : n \in Rgz(b.index)} ELSE NodesOf(Z, b)
ReadMesh == [nnode |-> 6, ncell |-> Len(CellSeq), pts |-> Z.pts, cells |-> CellSeq,
             marks |-> LET N == SetSeq(NamesOf(Z)) IN [k \in DOMAIN N |->
                 LET B == {x \in Bounds(Z) : Z.bcs[x].name = N[k]} IN
                 [name |-> N[k], type |-> "boundary", geodim |-> IF \E x \in B : LocOf(Z, Z.bcs[x]) = "CellCenter" THEN "cell" ELSE "node",
                  index |-> SetSeq(UNION {IndexOf(Z.bcs[x]) : x \in B})]]]
Good == closed => ReadZoneFails(Z, ReadMesh) = {}
=============================================================================
