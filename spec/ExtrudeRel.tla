----------------------------- MODULE ExtrudeRel --------------------------------
(* What extruding a plane mesh must give.
   src: nnode, pts (triples of integers, units of 1/64), cells (<<number, type, nodes>>),
        marks (name, type, index, per, geodim)
   planes: positions (units of 1/8), dir: direction (units of 1/8)
   res: the same fields, with the cells in space                               *)
EXTENDS MeshState

Copy(v, k, N) == v + k * N
\* ---- nodes
PointsFails(src, planes, dir, res) ==
  LET N == src.nnode IN
  Cl("one copy of the nodes per plane", res.nnode = N * Len(planes) /\ Len(res.pts) = res.nnode)
  \cup (IF Len(res.pts) # N * Len(planes) THEN {} ELSE
        Cl("nodes are translated to their plane",
           \A k \in 0..(Len(planes) - 1), v \in 1..N, a \in 1..3 :
              res.pts[Copy(v, k, N)][a] = src.pts[v][a] + planes[k + 1] * dir[a]))
\* ---- cells: the sides of a cell as a set of canonical walks
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Canon(w) == CHOOSE r \in {Rot(w, k) : k \in 0..(Len(w) - 1)} : r[1] = MinOf(Range(w))
Walks(cell) == {Canon(Side(cell, k)) : k \in 1..NSides(cell)}
Layered(cell, k, N) == LET b == cell[3] n == Len(b) IN
  <<0, Extruded[cell[2]], [i \in 1..(2 * n) |-> IF i <= n THEN Copy(b[i], k, N) ELSE Copy(b[i - n], k + 1, N)]>>
Want(src, nl) == {<<Layered(src.cells[i], k, src.nnode)[2], Walks(Layered(src.cells[i], k, src.nnode))>> : i \in DOMAIN src.cells, k \in 0..(nl - 1)}
Have(res) == {<<res.cells[i][2], Walks(res.cells[i])>> : i \in DOMAIN res.cells}
CellsFails(src, planes, res) ==
  LET nl == Len(planes) - 1 n == Len(src.cells) * nl IN
  Cl("one cell per plane cell and layer", res.ncell = n /\ Len(res.cells) = n)
  \cup Cl("cells are numbered 0..n-1", {res.cells[i][1] : i \in DOMAIN res.cells} = 0..(n - 1))
  \cup (IF \E i \in DOMAIN res.cells : res.cells[i][2] \notin {"prism6", "hexa8"} THEN {"cells are prisms or hexahedra"} ELSE
        Cl("each cell stands on its plane cell in its layer", Have(res) = Want(src, nl)))
\* ---- marks
MarkSet(m) == SetOfSeq(m.index)
NamedMarks(m, nm) == {m.marks[k] : k \in {j \in DOMAIN m.marks : m.marks[j].name = nm}}
\* the marks of the end planes do not replace those of the plane mesh
RECURSIVE Free(_, _)
Free(nm, names) == IF nm \in names THEN Free(nm \o "_", names) ELSE nm
End0(src, dom) == Free(dom \o "0", MarkNames(src))
End1(src, dom) == Free(dom \o "1", MarkNames(src))
UsedNodes(src) == UNION {Range(src.cells[i][3]) : i \in DOMAIN src.cells}
MarksFails(src, planes, dom, res) ==
  LET N == src.nnode P == 0..(Len(planes) - 1) IN
  Cl("the marks are those of the plane mesh and of the two end planes",
     Len(res.marks) = Len(src.marks) + 2 /\ MarkNames(res) = MarkNames(src) \cup {End0(src, dom), End1(src, dom)})
  \cup Cl("a mark is copied to all planes",
     \A k \in DOMAIN src.marks : \A m \in NamedMarks(res, src.marks[k].name) :
        MarkSet(m) = {Copy(v, p, N) : v \in MarkSet(src.marks[k]), p \in P})
  \cup Cl("a mark keeps its kind",
     \A k \in DOMAIN src.marks : \A m \in NamedMarks(res, src.marks[k].name) : SameMarkHead(src.marks[k], m) /\ NodeMark(m))
  \cup Cl("the end planes are marked",
     /\ \A m \in NamedMarks(res, End0(src, dom)) : MarkSet(m) = UsedNodes(src) /\ NodeMark(m) /\ m.type = "boundary"
     /\ \A m \in NamedMarks(res, End1(src, dom)) : MarkSet(m) = {Copy(v, Len(planes) - 1, N) : v \in UsedNodes(src)} /\ NodeMark(m) /\ m.type = "boundary")
ExtrudeFails(src, planes, dir, dom, res) ==
  PointsFails(src, planes, dir, res) \cup CellsFails(src, planes, res) \cup MarksFails(src, planes, dom, res)

\* ---- boundary of the plane mesh and of the extruded one
Edges(src) == AllSideSets(src.cells)
BoundaryEdges(src) == {e \in Edges(src) : Cardinality(Sharing(src.cells, e)) = 1}
Lateral(e, k, N) == {Copy(v, k, N) : v \in e} \cup {Copy(v, k + 1, N) : v \in e}
Laterals(src, S, nl) == {Lateral(e, k, src.nnode) : e \in S, k \in 0..(nl - 1)}
Flat(src, k) == {{Copy(v, k, src.nnode) : v \in Range(src.cells[i][3])} : i \in DOMAIN src.cells}
OuterSets(src, nl) == Laterals(src, BoundaryEdges(src), nl) \cup Flat(src, 0) \cup Flat(src, nl)
EdgesIn(src, m) == {e \in BoundaryEdges(src) : e \subseteq MarkSet(m)}
HoldsNoCell(src, m) == \A i \in DOMAIN src.cells : ~(Range(src.cells[i][3]) \subseteq MarkSet(m))
\* two marks with the nodes of one edge hold the same faces once extruded: such a mesh cannot be written
MarkedTwice(src) == \E e \in BoundaryEdges(src) : Cardinality({k \in DOMAIN src.marks : e \subseteq MarkSet(src.marks[k])}) > 1
AllMarkedOnce(src) == \A e \in BoundaryEdges(src) : Cardinality({k \in DOMAIN src.marks : e \subseteq MarkSet(src.marks[k])}) = 1
\* bnd: sets of nodes of the boundary faces; sets: mark name -> sequence of sets of nodes
SideFails(src, planes, dom, bnd, names, sets) ==
  LET nl == Len(planes) - 1
      clean == \A k \in DOMAIN src.marks : HoldsNoCell(src, src.marks[k])
      SetsOf(nm) == UNION {Range(sets[j]) : j \in {q \in DOMAIN names : names[q] = nm}}
  IN Cl("the boundary is the two end planes and the sides", bnd = OuterSets(src, nl))
     \cup (IF ~clean THEN {} ELSE
        Cl("a side mark holds exactly the lateral faces on its edges",
           \A k \in DOMAIN src.marks : SetsOf(src.marks[k].name) = Laterals(src, EdgesIn(src, src.marks[k]), nl))
        \cup Cl("the end marks hold exactly the faces of the end planes",
           SetsOf(End0(src, dom)) = Flat(src, 0) /\ SetsOf(End1(src, dom)) = Flat(src, nl))
        \cup Cl("no face twice in a mark", \A j \in DOMAIN sets : NoDup(sets[j]))
        \cup (IF ~AllMarkedOnce(src) THEN {} ELSE
              Cl("the whole boundary is marked exactly once",
                 \A f \in bnd : Cardinality({j \in DOMAIN sets : f \in Range(sets[j])}) = 1)))
=============================================================================
