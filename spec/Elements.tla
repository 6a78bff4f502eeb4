------------------------------ MODULE Elements ------------------------------
(* Linear element types, their sides as outward oriented walks (CGNS SIDS,
   sids/conv.html), and the element obtained by extrusion.  Sides are given as
   positions 1..n in the node list of the element.  The tables are not taken
   from the code: ElementsOK below checks them against reference geometry.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

EType == {"node1", "bar2", "tri3", "quad4", "tetra4", "pyra5", "prism6", "hexa8"}
NNode == [node1 |-> 1, bar2 |-> 2, tri3 |-> 3, quad4 |-> 4,
          tetra4 |-> 4, pyra5 |-> 5, prism6 |-> 6, hexa8 |-> 8]
Dim == [node1 |-> 0, bar2 |-> 1, tri3 |-> 2, quad4 |-> 2,
        tetra4 |-> 3, pyra5 |-> 3, prism6 |-> 3, hexa8 |-> 3]
FaceType(n) == CASE n = 1 -> "node1" [] n = 2 -> "bar2" [] n = 3 -> "tri3" [] n = 4 -> "quad4" [] n = 9 -> "quad9" [] OTHER -> "none"
Extruded == [node1 |-> "bar2", bar2 |-> "quad4", tri3 |-> "prism6", quad4 |-> "hexa8"]

SidesOf == [
  tri3   |-> << <<1,2>>, <<2,3>>, <<3,1>> >>,
  quad4  |-> << <<1,2>>, <<2,3>>, <<3,4>>, <<4,1>> >>,
  tetra4 |-> << <<1,3,2>>, <<1,2,4>>, <<2,3,4>>, <<3,1,4>> >>,
  pyra5  |-> << <<1,4,3,2>>, <<1,2,5>>, <<2,3,5>>, <<3,4,5>>, <<4,1,5>> >>,
  prism6 |-> << <<1,3,2>>, <<4,5,6>>, <<1,2,5,4>>, <<2,3,6,5>>, <<3,1,4,6>> >>,
  hexa8  |-> << <<1,4,3,2>>, <<5,6,7,8>>, <<1,2,6,5>>, <<2,3,7,6>>, <<3,4,8,7>>, <<4,1,5,8>> >> ]

CellType == DOMAIN SidesOf

\* second-order hexahedra, in the order of CGNS (hexa27) and of GMSH (hexa27g): places of the nodes in a cube of side 2,
\* corners first; a side is its four corners as a walk, then its other nodes
Corner27 == << <<0,0,0>>, <<2,0,0>>, <<2,2,0>>, <<0,2,0>>, <<0,0,2>>, <<2,0,2>>, <<2,2,2>>, <<0,2,2>> >>
Place27 == [hexa27 |-> Corner27 \o << <<1,0,0>>, <<2,1,0>>, <<1,2,0>>, <<0,1,0>>, <<0,0,1>>, <<2,0,1>>, <<2,2,1>>, <<0,2,1>>,
                                      <<1,0,2>>, <<2,1,2>>, <<1,2,2>>, <<0,1,2>>, <<1,1,0>>, <<1,0,1>>, <<2,1,1>>, <<1,2,1>>, <<0,1,1>>, <<1,1,2>>, <<1,1,1>> >>,
           hexa27g |-> Corner27 \o << <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<2,1,0>>, <<2,0,1>>, <<1,2,0>>, <<2,2,1>>, <<0,2,1>>,
                                      <<1,0,2>>, <<0,1,2>>, <<2,1,2>>, <<1,2,2>>, <<1,1,0>>, <<1,0,1>>, <<0,1,1>>, <<2,1,1>>, <<1,2,1>>, <<1,1,2>>, <<1,1,1>> >>]
Side27(et, k) == LET w == SidesOf["hexa8"][k] X == Place27[et]
                     d == CHOOSE m \in 1..3 : \A i \in 1..4 : X[w[i]][m] = X[w[1]][m]
                 IN w \o SelectSeq([i \in 1..19 |-> i + 8], LAMBDA i : X[i][d] = X[w[1]][d])
SidesHigh == [et \in DOMAIN Place27 |-> [k \in 1..6 |-> Side27(et, k)]]
SidesAll == SidesOf @@ SidesHigh
High == DOMAIN Place27

\* walks: cyclic sequences of nodes
Range(s) == {s[i] : i \in DOMAIN s}
Rot(s, k) == [i \in 1..Len(s) |-> s[1 + ((i - 1 + k) % Len(s))]]
SameWalk(s, t) == Len(s) = Len(t) /\ \E k \in 0..(Len(s) - 1) : Rot(s, k) = t
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* the sides of a cell <<number, type, nodes>> as walks on mesh nodes
Side(cell, k) == LET w == SidesAll[cell[2]][k] IN [i \in 1..Len(w) |-> cell[3][w[i]]]
SideSet(cell, k) == {cell[3][SidesAll[cell[2]][k][i]] : i \in DOMAIN SidesAll[cell[2]][k]}
NSides(cell) == Len(SidesAll[cell[2]])
SideSets(cell) == {SideSet(cell, k) : k \in 1..NSides(cell)}

-----------------------------------------------------------------------------
(* reference geometry, to justify the tables *)
RefXYZ == [
  tetra4 |-> << <<0,0,0>>, <<2,0,0>>, <<0,2,0>>, <<0,0,2>> >>,
  pyra5  |-> << <<0,0,0>>, <<2,0,0>>, <<2,2,0>>, <<0,2,0>>, <<1,1,2>> >>,
  prism6 |-> << <<0,0,0>>, <<2,0,0>>, <<0,2,0>>, <<0,0,2>>, <<2,0,2>>, <<0,2,2>> >>,
  hexa8  |-> << <<0,0,0>>, <<2,0,0>>, <<2,2,0>>, <<0,2,0>>, <<0,0,2>>, <<2,0,2>>, <<2,2,2>>, <<0,2,2>> >> ]
Sub(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
Cross(a, b) == <<a[2]*b[3]-a[3]*b[2], a[3]*b[1]-a[1]*b[3], a[1]*b[2]-a[2]*b[1]>>
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
RECURSIVE SumVec(_)
SumVec(s) == IF s = <<>> THEN <<0,0,0>> ELSE LET h == Head(s) r == SumVec(Tail(s)) IN <<h[1]+r[1], h[2]+r[2], h[3]+r[3]>>
\* n times (point - centroid of the element)
FromCentroid(et, p) == LET X == RefXYZ[et] n == Len(X) S == SumVec(X)
                       IN <<n*p[1]-S[1], n*p[2]-S[2], n*p[3]-S[3]>>
Outward(et, w) == LET X == RefXYZ[et]
                      nrm == Cross(Sub(X[w[2]], X[w[1]]), Sub(X[w[Len(w)]], X[w[1]]))
                  IN Dot(nrm, FromCentroid(et, X[w[1]])) > 0
DirEdges(w) == {<<w[i], w[1 + (i % Len(w))]>> : i \in DOMAIN w}
ElementsOK ==
  \A et \in DOMAIN RefXYZ :
     /\ \A k \in DOMAIN SidesOf[et] : Outward(et, SidesOf[et][k])
     \* closed surface: every directed edge once, its opposite once
     /\ LET W == SidesOf[et] IN
        \A k \in DOMAIN W : \A e \in DirEdges(W[k]) :
           Cardinality({j \in DOMAIN W : <<e[2], e[1]>> \in DirEdges(W[j])}) = 1
           /\ Cardinality({j \in DOMAIN W : e \in DirEdges(W[j])}) = 1
     /\ UNION {Range(SidesOf[et][k]) : k \in DOMAIN SidesOf[et]} = 1..NNode[et]
ExtrudedOK ==
  \* lateral sides of the extruded element stand on the edges of the base
  \A et \in {"tri3", "quad4"} : LET n == NNode[et] x == Extruded[et] IN
     \A k \in DOMAIN SidesOf[et] : LET e == SidesOf[et][k] IN
        \E j \in DOMAIN SidesOf[x] : SameWalk(SidesOf[x][j], <<e[1], e[2], e[2] + n, e[1] + n>>)
ASSUME ElementsOK
ASSUME \A et \in High : /\ Cardinality({Place27[et][i] : i \in 1..27}) = 27 /\ \A i \in 1..27, m \in 1..3 : Place27[et][i][m] \in 0..2
                        /\ \A k \in 1..6 : Len(SidesHigh[et][k]) = 9 /\ Cardinality(Range(SidesHigh[et][k])) = 9
                        /\ UNION {Range(SidesHigh[et][k]) : k \in 1..6} = 1..26
ASSUME ExtrudedOK
=============================================================================
