------------------------------- MODULE CgnsRel --------------------------------
(* What reading a CGNS zone must give.
   z: pts (places of nodes 1, 2, ..), dim, secs <<type, first, elements (nodes from 1)>>,
      bcs [name, how (points | elements), loc (Vertex | FaceCenter | CellCenter), index (numbers designated, in order)]
   m: nnode, ncell, pts, cells <<number, type, nodes>>, marks [name, type, geodim, index]                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
ZCl(t, b) == IF b THEN {} ELSE {t}
Rgz(s) == {s[k] : k \in DOMAIN s}
DimOf(t) == CASE t = "node1" -> 0 [] t = "bar2" -> 1 [] t \in {"tri3", "quad4"} -> 2 [] OTHER -> 3
ElemOf(z, n) == LET s == CHOOSE k \in DOMAIN z.secs : z.secs[k][2] <= n /\ n < z.secs[k][2] + Len(z.secs[k][3])
                IN <<z.secs[s][1], z.secs[s][3][n - z.secs[s][2] + 1]>>
Numbers(z, d) == UNION {{z.secs[k][2] + i - 1 : i \in DOMAIN z.secs[k][3]} : k \in {x \in DOMAIN z.secs : DimOf(z.secs[x][1]) = d}}
CellNums(z) == Numbers(z, z.dim)
Down(s) == [i \in DOMAIN s |-> s[i] - 1]
ShiftE(e) == <<e[1], Down(e[2])>>
\* the place designated by a condition: nodes, faces or cells
LocOf(z, b) == IF b.how = "points" THEN b.loc
               ELSE IF Rgz(b.index) \subseteq CellNums(z) THEN "CellCenter" ELSE "FaceCenter"
NodesOf(z, b) == IF LocOf(z, b) = "Vertex" THEN {v - 1 : v \in Rgz(b.index)}
                 ELSE UNION {Rgz(Down(ElemOf(z, n)[2])) : n \in Rgz(b.index)}
\* a list of all nodes or all cells is the domain
Whole(z, b) == \/ LocOf(z, b) = "Vertex" /\ Len(b.index) = Len(z.pts)
               \/ b.how = "elements" /\ LocOf(z, b) = "CellCenter" /\ Len(b.index) = Cardinality(CellNums(z))
Bounds(z) == {k \in DOMAIN z.bcs : ~Whole(z, z.bcs[k])}
NamesOf(z) == {z.bcs[k].name : k \in Bounds(z)}
CellAt(m, i) == CHOOSE k \in DOMAIN m.cells : m.cells[k][1] = i
ReadZoneFails(z, m) ==
  ZCl("each node of the zone is at its coordinates", m.nnode = Len(z.pts) /\ m.pts = z.pts)
  \cup ZCl("each cell of the zone once", m.ncell = Cardinality(CellNums(z)) /\ Len(m.cells) = m.ncell)
  \cup ZCl("cells keep type and nodes in order", {<<m.cells[k][2], m.cells[k][3]>> : k \in DOMAIN m.cells} = {ShiftE(ElemOf(z, n)) : n \in CellNums(z)})
  \cup ZCl("cells are numbered 0..n-1", {m.cells[k][1] : k \in DOMAIN m.cells} = 0..(m.ncell - 1))
  \cup ZCl("one mark for each name of boundary condition", /\ {m.marks[k].name : k \in DOMAIN m.marks} = NamesOf(z)
                                                          /\ Len(m.marks) = Cardinality(NamesOf(z)))
  \cup (IF {m.marks[k].name : k \in DOMAIN m.marks} # NamesOf(z) THEN {} ELSE UNION {
        LET mk == m.marks[k] B == {b \in Bounds(z) : z.bcs[b].name = mk.name} IN
        IF \A b \in B : LocOf(z, z.bcs[b]) # "CellCenter"
        THEN ZCl("a mark holds exactly the nodes of its condition", Rgz(mk.index) = UNION {NodesOf(z, z.bcs[b]) : b \in B})
             \cup ZCl("the kind of a mark is that of its location", mk.geodim \in {"node", "bdnode", "intnode"} /\ mk.type = "boundary")
        ELSE IF \A b \in B : LocOf(z, z.bcs[b]) = "CellCenter" /\ \A i \in Rgz(mk.index) : i \in 0..(m.ncell - 1)
        THEN ZCl("a mark of cells holds exactly the cells of its condition",
               /\ {m.cells[CellAt(m, i)][3] : i \in Rgz(mk.index)} = {Down(ElemOf(z, n)[2]) : n \in UNION {Rgz(z.bcs[b].index) : b \in B}})
             \cup ZCl("the kind of a mark is that of its location", mk.geodim = "cell" /\ mk.type = "boundary")
        ELSE {"a mark of cells holds exactly the cells of its condition"} : k \in DOMAIN m.marks})
=============================================================================
