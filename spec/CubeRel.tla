------------------------------- MODULE CubeRel ---------------------------------
(* What the generated box must be.  n = <<nx, ny, nz>>; a mesh m: nnode, ncell,
   pts (lattice positions of the nodes: triples of integers, the coordinate times
   the number of cells), cells (<<number, type, nodes>>), marks.
   Numberings of nodes and cells are free.                                      *)
EXTENDS MeshState
Lattice(n) == (0..n[1]) \X (0..n[2]) \X (0..n[3])
Boxes(n) == (0..(n[1] - 1)) \X (0..(n[2] - 1)) \X (0..(n[3] - 1))
NNodes(n) == (n[1] + 1) * (n[2] + 1) * (n[3] + 1)
NCells(n) == n[1] * n[2] * n[3]
\* bottom face then top face, each a positive walk from the lowest corner
Corners == << <<0,0,0>>, <<1,0,0>>, <<1,1,0>>, <<0,1,0>>, <<0,0,1>>, <<1,0,1>>, <<1,1,1>>, <<0,1,1>> >>
Plus(p, q) == <<p[1] + q[1], p[2] + q[2], p[3] + q[3]>>
Box(p) == [c \in 1..8 |-> Plus(p, Corners[c])]
Pts(m, nodes) == [k \in DOMAIN nodes |-> m.pts[nodes[k] + 1]]
Sides == <<"imin", "imax", "jmin", "jmax", "kmin", "kmax">>
OnSide(n, s, p) == CASE s = "imin" -> p[1] = 0 [] s = "imax" -> p[1] = n[1] [] s = "jmin" -> p[2] = 0
                     [] s = "jmax" -> p[2] = n[2] [] s = "kmin" -> p[3] = 0 [] s = "kmax" -> p[3] = n[3]
SideOf(n, s) == {p \in Lattice(n) : OnSide(n, s, p)}
NodesFails(n, m) ==
  Cl("one node per lattice point", m.nnode = NNodes(n) /\ Len(m.pts) = m.nnode /\ Range(m.pts) = Lattice(n))
CellsFails(n, m) ==
  Cl("number of cells", m.ncell = NCells(n) /\ Len(m.cells) = m.ncell)
  \cup Cl("cells are hexahedra", \A i \in DOMAIN m.cells : m.cells[i][2] = "hexa8" /\ Len(m.cells[i][3]) = 8)
  \cup Cl("cells are numbered 0..n-1", {m.cells[i][1] : i \in DOMAIN m.cells} = 0..(NCells(n) - 1))
  \cup Cl("nodes of cells exist", \A i \in DOMAIN m.cells : \A k \in DOMAIN m.cells[i][3] : m.cells[i][3][k] + 1 \in DOMAIN m.pts)
BoxFails(n, m) ==
  LET low == {m.pts[m.cells[i][3][1] + 1] : i \in DOMAIN m.cells} IN
  Cl("one cell per lattice cell", low = Boxes(n))
  \cup Cl("corners in standard order", \A i \in DOMAIN m.cells : Pts(m, m.cells[i][3]) = Box(m.pts[m.cells[i][3][1] + 1]))
SidesFails(n, m) ==
  Cl("six marks, one per side", Len(m.marks) = 6 /\ MarkNames(m) = Range(Sides))
  \cup Cl("marks are marks of nodes of the boundary", \A k \in DOMAIN m.marks : NodeMark(m.marks[k]) /\ m.marks[k].type = "boundary")
  \cup Cl("a mark holds exactly the nodes of its side",
     \A k \in DOMAIN m.marks : /\ NoDup(m.marks[k].index)
                               /\ SetOfSeq(m.marks[k].index) = {v \in 0..(m.nnode - 1) : OnSide(n, m.marks[k].name, m.pts[v + 1])})
GridFails(n, m) == LET a == NodesFails(n, m) \cup CellsFails(n, m) IN IF a # {} THEN a ELSE BoxFails(n, m)
CubeFails(n, m) == LET a == GridFails(n, m) IN IF a # {} THEN a ELSE SidesFails(n, m)
\* ---- its boundary: names and sets of the marks of faces, as sets of nodes of m
Quad(p, a, b) == {p, Plus(p, a), Plus(p, b), Plus(Plus(p, a), b)}
U == <<1,0,0>>
V == <<0,1,0>>
W == <<0,0,1>>
SideQuads(n, s) ==
  CASE s = "imin" -> {Quad(<<0, j, k>>, V, W) : j \in 0..(n[2] - 1), k \in 0..(n[3] - 1)}
    [] s = "imax" -> {Quad(<<n[1], j, k>>, V, W) : j \in 0..(n[2] - 1), k \in 0..(n[3] - 1)}
    [] s = "jmin" -> {Quad(<<i, 0, k>>, U, W) : i \in 0..(n[1] - 1), k \in 0..(n[3] - 1)}
    [] s = "jmax" -> {Quad(<<i, n[2], k>>, U, W) : i \in 0..(n[1] - 1), k \in 0..(n[3] - 1)}
    [] s = "kmin" -> {Quad(<<i, j, 0>>, U, V) : i \in 0..(n[1] - 1), j \in 0..(n[2] - 1)}
    [] s = "kmax" -> {Quad(<<i, j, n[3]>>, U, V) : i \in 0..(n[1] - 1), j \in 0..(n[2] - 1)}
PSet(m, q) == {m.pts[v + 1] : v \in Range(q)}
FaceSidesFails(n, m, bnd, names, sets) ==
  Cl("the boundary is that of the box", {PSet(m, bnd[i]) : i \in DOMAIN bnd} = UNION {SideQuads(n, s) : s \in Range(Sides)}
     /\ Len(bnd) = 2 * (n[1] * n[2] + n[2] * n[3] + n[1] * n[3]))
  \cup Cl("six marks, one per side", Len(names) = 6 /\ Range(names) = Range(Sides))
  \cup (IF Range(names) # Range(Sides) THEN {} ELSE
        Cl("a mark holds exactly the faces of its side, once",
           \A k \in DOMAIN names : Len(sets[k]) = Cardinality(SideQuads(n, names[k]))
                                   /\ {PSet(m, sets[k][i]) : i \in DOMAIN sets[k]} = SideQuads(n, names[k])))
=============================================================================
