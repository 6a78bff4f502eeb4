------------------------------ MODULE FaceRel -------------------------------
(* What deriving faces must give.  A cell is <<number, type, nodes>>, a face
   <<number, type, nodes>>; a table f2c holds in row i+1 the pair of cells of
   face number i (second one -1 on the boundary).                            *)
EXTENDS Elements

Cl(name, ok) == IF ok THEN {} ELSE {name}

\* ---- direct definition -----------------------------------------------------
\* (for small sets of cells: used by the design check and to validate the certificate)
AllSideSets(cells) == UNION {SideSets(cells[i]) : i \in DOMAIN cells}
Sharing(cells, s) == {i \in DOMAIN cells : s \in SideSets(cells[i])}
Conforming(cells) == \A s \in AllSideSets(cells) : Cardinality(Sharing(cells, s)) \in {1, 2}

DirectOK(cells, ifaces, if2c, bfaces, bf2c) ==
  LET IS == {Range(ifaces[i][3]) : i \in DOMAIN ifaces}
      BS == {Range(bfaces[i][3]) : i \in DOMAIN bfaces}
      nums(s) == {cells[i][1] : i \in Sharing(cells, s)}
  IN /\ IS = {s \in AllSideSets(cells) : Cardinality(Sharing(cells, s)) = 2}
     /\ BS = {s \in AllSideSets(cells) : Cardinality(Sharing(cells, s)) = 1}
     /\ Cardinality(IS) = Len(ifaces) /\ Cardinality(BS) = Len(bfaces)
     /\ \A i \in DOMAIN ifaces : Range(if2c[ifaces[i][1] + 1]) = nums(Range(ifaces[i][3]))
     /\ \A i \in DOMAIN bfaces : Range(bf2c[bfaces[i][1] + 1]) = nums(Range(bfaces[i][3])) \cup {-1}
                                 /\ bf2c[bfaces[i][1] + 1][2] = -1

\* ---- certificate of linear size, equivalent on conforming cells --------------
NumIs0toN(faces) == {faces[i][1] : i \in DOMAIN faces} = 0..(Len(faces) - 1)
RECURSIVE SumSides(_, _)
SumSides(cells, i) == IF i = 0 THEN 0 ELSE NSides(cells[i]) + SumSides(cells, i - 1)
\* balanced recursion: TLC's stack stays small
RECURSIVE SumSidesB(_, _, _)
SumSidesB(cells, a, b) == IF a > b THEN 0 ELSE IF a = b THEN NSides(cells[a])
                          ELSE LET m == (a + b) \div 2 IN SumSidesB(cells, a, m) + SumSidesB(cells, m + 1, b)

\* cell number -> position in cells
CellPos(cells) == [n \in {cells[i][1] : i \in DOMAIN cells} |-> CHOOSE i \in DOMAIN cells : cells[i][1] = n]
CellByNum(cells) == \* linear when cells are listed by number, as the projection does
  IF \A i \in DOMAIN cells : cells[i][1] = i - 1 THEN [n \in 0..(Len(cells) - 1) |-> n + 1] ELSE CellPos(cells)

FaceShape(faces) ==
  \A i \in DOMAIN faces : /\ faces[i][2] = FaceType(Len(faces[i][3]))
                          /\ Cardinality(Range(faces[i][3])) = Len(faces[i][3])

IsSideOf(cells, pos, cellnum, s) == cellnum \in DOMAIN pos /\ s \in SideSets(cells[pos[cellnum]])
OutwardOf(cells, pos, cellnum, w) ==
  LET cl == cells[pos[cellnum]] IN
  IF cl[2] \in High THEN LET v == SelectSeq(w, LAMBDA n : \E i \in 1..8 : cl[3][i] = n) IN \E k \in 1..6 : SameWalk(SubSeq(Side(cl, k), 1, 4), v)
  ELSE \E k \in 1..NSides(cl) : SameWalk(Side(cl, k), w)

FaceFails(cells, ifaces, if2c, bfaces, bf2c, dim) ==
  LET pos == CellByNum(cells)
      basic == Cl("internal faces numbered 0..n-1", NumIs0toN(ifaces))
               \cup Cl("boundary faces numbered 0..n-1", NumIs0toN(bfaces))
               \cup Cl("one row of cells per internal face", Len(if2c) = Len(ifaces))
               \cup Cl("one row of cells per boundary face", Len(bf2c) = Len(bfaces))
               \cup Cl("face types", FaceShape(ifaces) /\ FaceShape(bfaces))
  IN IF basic # {} THEN basic ELSE
     LET sets == {Range(ifaces[i][3]) : i \in DOMAIN ifaces} \cup {Range(bfaces[i][3]) : i \in DOMAIN bfaces}
         own == Cl("internal face belongs to its two cells",
                   \A i \in DOMAIN ifaces : LET r == if2c[ifaces[i][1] + 1] s == Range(ifaces[i][3]) IN
                      Len(r) = 2 /\ r[1] # r[2] /\ IsSideOf(cells, pos, r[1], s) /\ IsSideOf(cells, pos, r[2], s))
                \cup Cl("boundary face belongs to its cell",
                   \A i \in DOMAIN bfaces : LET r == bf2c[bfaces[i][1] + 1] s == Range(bfaces[i][3]) IN
                      Len(r) = 2 /\ r[2] = -1 /\ IsSideOf(cells, pos, r[1], s))
                \cup Cl("no face twice", Cardinality(sets) = Len(ifaces) + Len(bfaces))
                \cup Cl("every cell side is a face", 2 * Len(ifaces) + Len(bfaces) = SumSidesB(cells, 1, Len(cells)))
     IN IF own # {} \/ dim < 3 THEN own ELSE
        Cl("internal face oriented from first to second cell",
           \A i \in DOMAIN ifaces : OutwardOf(cells, pos, if2c[ifaces[i][1] + 1][1], ifaces[i][3]))
        \cup Cl("boundary face oriented outward",
           \A i \in DOMAIN bfaces : OutwardOf(cells, pos, bf2c[bfaces[i][1] + 1][1], bfaces[i][3]))

\* merged numbering: boundary faces first, then internal ones, rows following
ByNum(faces) == [n \in 0..(Len(faces) - 1) |-> (CHOOSE i \in DOMAIN faces : faces[i][1] = n)]
SortedFaces(faces) == IF \A i \in DOMAIN faces : faces[i][1] = i - 1 THEN faces
                      ELSE LET b == ByNum(faces) IN [i \in 1..Len(faces) |-> faces[b[i - 1]]]
MergedFails(ifaces, if2c, bfaces, bf2c, mfaces, mf2c) ==
  LET n == Len(bfaces) IN
  IF ~(Len(mfaces) = Len(ifaces) + n /\ NumIs0toN(mfaces)) THEN {"merged faces numbered 0..n-1"} ELSE
  LET M == SortedFaces(mfaces) B == SortedFaces(bfaces) I == SortedFaces(ifaces) IN
  Cl("merged faces are the boundary then the internal faces",
     \A i \in 1..Len(M) : M[i][2] = (IF i <= n THEN B[i] ELSE I[i - n])[2]
                          /\ M[i][3] = (IF i <= n THEN B[i] ELSE I[i - n])[3])
  \cup Cl("merged rows follow", mf2c = bf2c \o if2c)
=============================================================================
