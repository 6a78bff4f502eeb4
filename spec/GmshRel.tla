------------------------------- MODULE GmshRel --------------------------------
(* What reading a GMSH file must give.
   f: nodes <<tag, place>>, elems <<dim, type, physical groups (sequence), nodes (tags)>>, names <<dim, group, name>>
   m: nnode, ncell, pts (places), cells <<number, type, nodes>>, marks, w (witness: tag of each node)  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
GCl(t, b) == IF b THEN {} ELSE {t}
Rgs(s) == {s[k] : k \in DOMAIN s}
MaxDim(f) == CHOOSE d \in {f.elems[k][1] : k \in DOMAIN f.elems} : \A k \in DOMAIN f.elems : f.elems[k][1] <= d
CellLines(f) == {k \in DOMAIN f.elems : f.elems[k][1] = MaxDim(f)}
SideLines(f) == {k \in DOMAIN f.elems : f.elems[k][1] = MaxDim(f) - 1}
Groups(f) == {k \in DOMAIN f.names : f.names[k][1] = MaxDim(f) - 1}
\* groups of the same name (and dimension) are one
Alike(f, g) == {h \in Groups(f) : f.names[h][3] = f.names[g][3]}
LinesOf(f, g) == {k \in SideLines(f) : \E h \in Alike(f, g) : f.names[h][2] \in Rgs(f.elems[k][3])}
GroupNodes(f, g) == UNION {Rgs(f.elems[k][4]) : k \in LinesOf(f, g)}
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
NodesOk(f, m) == /\ Len(m.w) = m.nnode /\ Cardinality(Rgs(m.w)) = m.nnode
                 /\ {<<m.w[i], m.pts[i]>> : i \in DOMAIN m.w} = Rgs(f.nodes)
CellsOf(m) == [k \in DOMAIN m.cells |-> <<m.cells[k][2], [i \in DOMAIN m.cells[k][3] |-> m.w[m.cells[k][3][i] + 1]]>>]
MarkSetOf(m, k) == {m.w[v + 1] : v \in Rgs(m.marks[k].index)}
ReadGmshFails(f, m) ==
  GCl("the number of nodes is that of the file", m.nnode = Len(f.nodes) /\ Len(m.pts) = m.nnode)
  \cup (IF ~NodesOk(f, m) THEN {"each node of the file is at its coordinates"} ELSE
     LET c == CellsOf(m) IN
     GCl("each cell of the file once", m.ncell = Cardinality(CellLines(f)) /\ Len(c) = m.ncell)
     \cup GCl("cells keep type and nodes in order", Rgs(c) = {<<f.elems[k][2], f.elems[k][4]>> : k \in CellLines(f)})
     \cup GCl("cells are numbered 0..n-1", {m.cells[k][1] : k \in DOMAIN m.cells} = 0..(m.ncell - 1))
     \cup (IF f.names = <<>> THEN {} ELSE
        GCl("one mark for each named group of faces",
           \A g \in Groups(f) : LinesOf(f, g) # {} => Cardinality({k \in DOMAIN m.marks : m.marks[k].name = f.names[g][3]}) = 1)
        \cup GCl("no other mark", \A k \in DOMAIN m.marks : \E g \in Groups(f) : f.names[g][3] = m.marks[k].name)
        \cup GCl("a mark holds exactly the nodes of its group",
           \A g \in Groups(f) : \A k \in DOMAIN m.marks : m.marks[k].name = f.names[g][3] => MarkSetOf(m, k) = GroupNodes(f, g))
        \cup GCl("marks are boundary marks of nodes", \A k \in DOMAIN m.marks : m.marks[k].type = "boundary" /\ m.marks[k].geodim \in {"node", "bdnode", "intnode"})))
\* two readings of the same mesh are the same mesh
SameMesh(a, b) ==
  LET ms(m) == {<<m.marks[k].name, MarkSetOf(m, k)>> : k \in DOMAIN m.marks} IN
  GCl("both versions give the same nodes", {<<a.w[i], a.pts[i]>> : i \in DOMAIN a.w} = {<<b.w[i], b.pts[i]>> : i \in DOMAIN b.w})
  \cup GCl("both versions give the same cells", Rgs(CellsOf(a)) = Rgs(CellsOf(b)) /\ a.ncell = b.ncell)
  \cup GCl("both versions give the same marks", ms(a) = ms(b))
=============================================================================
