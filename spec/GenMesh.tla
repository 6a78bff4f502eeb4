------------------------------ MODULE GenMesh -------------------------------
(* Scenarios: conforming mixed meshes of a lattice of cubes. A cube is one
   hexahedron (H), two prisms along an axis with a diagonal (P), or is split
   from its centre (C: a pyramid per quadrangle side, two tets per
   triangulated side).  A side shared by two cubes must be cut in the same way
   by both; C adapts to its neighbours.                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Dims, Full
SmallDims == {<<1,1,1>>, <<2,1,1>>, <<1,2,1>>, <<1,1,2>>}
BigDims == {<<2,2,1>>, <<3,1,1>>, <<2,1,2>>, <<1,2,2>>, <<2,2,2>>, <<3,2,1>>, <<1,3,2>>, <<3,2,2>>}
Kinds == {"H", "C", "Px0", "Px1", "Py0", "Py1", "Pz0", "Pz1"}
\* cut of the two sides of a cube normal to axis ax: "q", "t0", "t1" or "any"
Cut(k, ax) == CASE k = "C" -> "any" [] k = "H" -> "q"
   [] k = "Px0" -> (IF ax = 1 THEN "t0" ELSE "q") [] k = "Px1" -> (IF ax = 1 THEN "t1" ELSE "q")
   [] k = "Py0" -> (IF ax = 2 THEN "t0" ELSE "q") [] k = "Py1" -> (IF ax = 2 THEN "t1" ELSE "q")
   [] k = "Pz0" -> (IF ax = 3 THEN "t0" ELSE "q") [] k = "Pz1" -> (IF ax = 3 THEN "t1" ELSE "q")
Agree(a, b) == a = "any" \/ b = "any" \/ a = b
Lattice(d) == (1..d[1]) \X (1..d[2]) \X (1..d[3])
Nb(p, ax) == [p EXCEPT ![ax] = p[ax] + 1]
Fits(d, f) == \A p \in Lattice(d) : \A ax \in 1..3 : p[ax] < d[ax] => Agree(Cut(f[p], ax), Cut(f[Nb(p, ax)], ax))
VARIABLES dims, kind, todo
\* cubes are filled one after the other; only fitting choices are taken
Init == /\ dims \in Dims /\ kind = <<>> /\ todo = dims[1] * dims[2] * dims[3]
Pos(d, i) == << 1 + ((i - 1) % d[1]), 1 + (((i - 1) \div d[1]) % d[2]), 1 + ((i - 1) \div (d[1] * d[2])) >>
Idx(d, p) == 1 + (p[1] - 1) + d[1] * (p[2] - 1) + d[1] * d[2] * (p[3] - 1)
FitsHere(k) == LET i == Len(kind) + 1 p == Pos(dims, i) IN
   \A ax \in 1..3 : p[ax] > 1 =>
      Agree(Cut(k, ax), Cut(kind[Idx(dims, [p EXCEPT ![ax] = p[ax] - 1])], ax))
Put(k) == /\ todo > 0 /\ FitsHere(k)
          /\ kind' = Append(kind, k) /\ todo' = todo - 1 /\ dims' = dims
Emit == todo = 0 => PrintT("@@" \o ToJson([dims |-> dims, kind |-> kind]))
Next == \E k \in (IF Full THEN Kinds ELSE {"H", "C", "Pz0", "Px1"}) : Put(k)
Spec == Init /\ [][Next]_<<dims, kind, todo>>
FitOK == todo = 0 => Fits(dims, [p \in Lattice(dims) |-> kind[Idx(dims, p)]])
=============================================================================
