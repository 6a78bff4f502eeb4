----------------------------- MODULE ExtrudeAlg --------------------------------
(* Design of the extrusion: layer by layer.  All small plane meshes of a lattice
   (a quadrangle Q or two triangles T0, T1 per square), all numbers of planes.
   Checks that the layered mesh satisfies ExtrudeRel, that it is conforming, and
   that the marks of the sides and end planes tile its boundary.
   The same module emits the scenarios replayed on the real code.               *)
EXTENDS ExtrudeRel, Json
CONSTANTS Gen, Dims, MaxPlanes, MarkKinds, PlaneKinds, Modes
TinyDims == {<<1, 1>>, <<2, 1>>}
SmallDims == {<<1, 1>>, <<2, 1>>, <<2, 2>>}
GenDims == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>, <<3, 1>>, <<3, 2>>}
Kinds2 == {"Q", "T0", "T1"}
VARIABLES dims, kind, todo, np, mk, res, layer, mode, pk
vars == <<dims, kind, todo, np, mk, res, layer, mode, pk>>
Nd(d, i, j) == i + (d[1] + 1) * j
Corner(d, q) == LET i == (q - 1) % d[1] j == (q - 1) \div d[1] IN <<Nd(d, i, j), Nd(d, i + 1, j), Nd(d, i + 1, j + 1), Nd(d, i, j + 1)>>
CellsOf(d, q, k) == LET c == Corner(d, q) IN
  CASE k = "Q" -> << <<"quad4", c>> >>
    [] k = "T0" -> << <<"tri3", <<c[1], c[2], c[3]>>>>, <<"tri3", <<c[1], c[3], c[4]>>>> >>
    [] k = "T1" -> << <<"tri3", <<c[1], c[2], c[4]>>>>, <<"tri3", <<c[2], c[3], c[4]>>>> >>
RECURSIVE AllCells(_, _, _)
AllCells(d, kd, q) == IF q = 0 THEN <<>> ELSE AllCells(d, kd, q - 1) \o CellsOf(d, q, kd[q])
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == MinOf(S) IN <<x>> \o SeqOf(S \ {x})
RECURSIVE AnySeq(_)
AnySeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AnySeq(S \ {x})
SideNodes(d, s) == CASE s = "xmin" -> {Nd(d, 0, j) : j \in 0..d[2]} [] s = "xmax" -> {Nd(d, d[1], j) : j \in 0..d[2]}
                     [] s = "ymin" -> {Nd(d, i, 0) : i \in 0..d[1]} [] s = "ymax" -> {Nd(d, i, d[2]) : i \in 0..d[1]}
Mark(d, s) == [name |-> s, type |-> "boundary", geodim |-> "bdnode", repr |-> "list", per |-> <<>>, index |-> SeqOf(SideNodes(d, s))]
Src == LET cl == AllCells(dims, kind, dims[1] * dims[2]) N == (dims[1] + 1) * (dims[2] + 1) IN
  [nnode |-> N, cells |-> [i \in DOMAIN cl |-> <<i - 1, cl[i][1], cl[i][2]>>],
   pts |-> [v \in 1..N |-> <<(v - 1) % (dims[1] + 1), (v - 1) \div (dims[1] + 1), 0>>],
   marks |-> IF mk = "none" THEN <<>> ELSE IF mk = "two" THEN <<Mark(dims, "xmin"), Mark(dims, "ymax")>>
             ELSE <<Mark(dims, "xmin"), Mark(dims, "xmax"), Mark(dims, "ymin"), Mark(dims, "ymax")>>]
Init == /\ dims \in Dims /\ kind = <<>> /\ todo = dims[1] * dims[2] /\ np \in 2..MaxPlanes
        /\ mk \in MarkKinds /\ res = [ncell |-> 0, nnode |-> 0, cells |-> <<>>, pts |-> <<>>, marks |-> <<>>] /\ layer = -1
        /\ mode \in Modes /\ pk \in PlaneKinds
Put(k) == todo > 0 /\ kind' = Append(kind, k) /\ todo' = todo - 1 /\ UNCHANGED <<dims, np, mk, res, layer, mode, pk>>
Plane == /\ ~Gen /\ todo = 0 /\ layer + 1 < np
         /\ LET s == Src k == layer + 1 N == s.nnode IN
            res' = [res EXCEPT !.nnode = @ + N, !.pts = @ \o [v \in 1..N |-> <<s.pts[v][1], s.pts[v][2], k>>],
                    !.ncell = IF k = 0 THEN 0 ELSE @ + Len(s.cells),
                    !.cells = IF k = 0 THEN <<>> ELSE @ \o [i \in DOMAIN s.cells |-> <<Len(@) + i - 1>> \o Tail(Layered(s.cells[i], k - 1, N))],
                    !.marks = IF k + 1 < np THEN <<>> ELSE
                       [j \in DOMAIN s.marks |-> [s.marks[j] EXCEPT !.index = SeqOf({Copy(v, p, N) : v \in MarkSet(s.marks[j]), p \in 0..k})]]
                       \o << [Mark(dims, "xmin") EXCEPT !.name = "d0", !.index = SeqOf(UsedNodes(s))],
                             [Mark(dims, "xmin") EXCEPT !.name = "d1", !.index = SeqOf({Copy(v, k, N) : v \in UsedNodes(s)})] >>]
         /\ layer' = layer + 1 /\ UNCHANGED <<dims, kind, todo, np, mk, mode, pk>>
Next == (\E k \in Kinds2 : Put(k)) \/ Plane
Spec == Init /\ [][Next]_vars
Done == layer + 1 = np
Good == Done => ExtrudeFails(Src, [k \in 1..np |-> k - 1], <<0, 0, 1>>, "d", res) = {}
Conform == Done => Conforming(res.cells)
Outer(r) == {s \in AllSideSets(r.cells) : Cardinality(Sharing(r.cells, s)) = 1}
MkSets(r) == [j \in DOMAIN r.marks |-> AnySeq({f \in Outer(r) : f \subseteq MarkSet(r.marks[j])})]
Sides == Done => SideFails(Src, [k \in 1..np |-> k - 1], "d", Outer(res), [j \in DOMAIN res.marks |-> res.marks[j].name], MkSets(res)) = {}
Emit == (todo = 0 /\ layer = -1) => PrintT("@@" \o ToJson([dims |-> dims, kind |-> kind, np |-> np, marks |-> mk, mode |-> mode, planes |-> pk]))
=============================================================================
