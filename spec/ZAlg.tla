---------------------------------- MODULE ZAlg ----------------------------------
(* Design of the averaging: cells sorted by transverse position, cut in planes where the
   position jumps, planes compared in number and spacing, each cell given the place of the
   aligned cell of the first plane.  All grids of at most N cells, in any order, on Cols
   columns and Levels levels, with small transverse jitter.                         *)
EXTENDS ZRel
CONSTANTS N, Cols, Levels, Jit
VARIABLES cells, ph, order, planes, ik, k, exc
vars == <<cells, ph, order, planes, ik, k, exc>>
Cell(c, z, j) == [t |-> "quad4", p |-> <<c, z>>, col |-> c, d |-> <<0, 0>>, z |-> z, j |-> j]
Kinds == {Cell(c, z, j) : c \in 1..Cols, z \in Levels, j \in Jit}
Lv3 == {0, 1, 2}
Lv4 == {0, 1, 2, 4}
Flat == {0}
Jitter == {0, 1}
Init == /\ cells = <<>> /\ ph = "grid" /\ order = <<>> /\ planes = <<>> /\ ik = <<>> /\ k = 1 /\ exc = ""
Add == ph = "grid" /\ Len(cells) < N /\ \E c \in Kinds : cells' = Append(cells, c) /\ UNCHANGED <<ph, order, planes, ik, k, exc>>
Start == ph = "grid" /\ cells # <<>> /\ ph' = "sort" /\ UNCHANGED <<cells, order, planes, ik, k, exc>>
Pos(i) == cells[i].z * 10 + cells[i].j
\* cells of the same position come in any order: here by number, or by decreasing number
Less(i, j, up) == Pos(i) < Pos(j) \/ (Pos(i) = Pos(j) /\ IF up THEN i < j ELSE i > j)
Sort == /\ ph = "sort" /\ ph' = "cut"
        /\ \E up \in BOOLEAN : order' = [m \in DOMAIN cells |-> CHOOSE i \in DOMAIN cells : Cardinality({j \in DOMAIN cells : Less(j, i, up)}) = m - 1]
        /\ UNCHANGED <<cells, planes, ik, k, exc>>
RECURSIVE CutSeq(_)
CutSeq(s) == IF s = <<>> THEN <<>> ELSE LET r == CutSeq(Tail(s)) IN
  IF r # <<>> /\ Pos(Head(Head(r))) - Pos(Head(s)) <= 2 THEN << <<Head(s)>> \o Head(r) >> \o Tail(r) ELSE << <<Head(s)>> >> \o r
Refuse(e) == exc' = e /\ ph' = "end" /\ UNCHANGED <<cells, order, planes, ik, k>>
Cut == /\ ph = "cut"
       /\ LET P == CutSeq(order) IN
          IF Len(P) <= 1 \/ (\E b \in DOMAIN P : Len(P[b]) # Len(P[1])) \/ \E a \in 2..(Len(P) - 1) :
             cells[P[a + 1][1]].z - cells[P[a][1]].z # cells[P[a][1]].z - cells[P[a - 1][1]].z THEN Refuse("ValueError")
          ELSE planes' = P /\ ph' = "place" /\ UNCHANGED <<cells, order, ik, k, exc>>
\* place of each cell of plane k among the columns of the first plane
Place == /\ ph = "place"
         /\ LET first == planes[1]
                idx == [m \in DOMAIN planes[k] |-> {a \in DOMAIN first : cells[first[a]].col = cells[planes[k][m]].col}] IN
            IF \E m \in DOMAIN idx : idx[m] = {} \/ \E n \in DOMAIN idx : n # m /\ idx[n] = idx[m] THEN Refuse("ValueError")
            ELSE /\ ik' = Append(ik, [a \in DOMAIN first |-> planes[k][CHOOSE m \in DOMAIN idx : a \in idx[m]]])
                 /\ IF k = Len(planes) THEN ph' = "end" /\ UNCHANGED k ELSE k' = k + 1 /\ UNCHANGED ph
                 /\ UNCHANGED <<cells, order, planes, exc>>
Next == Add \/ Start \/ Sort \/ Cut \/ Place
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Refused == (ph = "end") => ((exc # "") <=> ~Regular(cells))
Columns == (ph = "end" /\ exc = "") => \A a \in DOMAIN planes[1] : [m \in DOMAIN ik |-> ik[m][a]] = Column(cells, planes[1][a])
Ends == <>(ph = "end")
=============================================================================
