------------------------------ MODULE FaceAlg -------------------------------
(* Design of the face derivation: the sides of all cells are met one by one,
   in any order; a side is kept until its twin comes.  Checked exhaustively on
   small conforming and non conforming sets of cells, against the direct
   definition and against the certificate used on recorded executions.       *)
EXTENDS FaceRel
CONSTANT Mutation      \* "none", or a deliberate fault used to show the clauses bite

\* a library of cells on a few nodes that fit together:
\*  1 hexa, pyramid on its top, tets on the pyramid, a prism at its side
Lib == << <<0, "hexa8", <<0,1,2,3,4,5,6,7>>>>,
          <<1, "pyra5", <<4,5,6,7,8>>>>,
          <<2, "tetra4", <<4,5,8,9>>>>,
          <<3, "prism6", <<1,10,2,5,11,6>>>>,
          <<4, "tetra4", <<5,8,9,12>>>>,
          <<5, "tetra4", <<5,11,6,13>>>> >>
Renum(S) == LET n == Cardinality(S)
                f == CHOOSE f \in [1..n -> S] : \A i, j \in 1..n : i < j => f[i] < f[j]
            IN [i \in 1..n |-> <<i - 1, Lib[f[i]][2], Lib[f[i]][3]>>]
CONSTANT MaxCells
Inputs == {Renum(S) : S \in {T \in SUBSET (1..Len(Lib)) : Cardinality(T) \in 1..MaxCells}}

VARIABLES cells, todo, open, pairs, bnd, phase
vars == <<cells, todo, open, pairs, bnd, phase>>
SideIds(cs) == UNION {{<<i, k>> : k \in 1..NSides(cs[i])} : i \in DOMAIN cs}
SetOf(sd) == SideSet(cells[sd[1]], sd[2])

Init == /\ cells \in Inputs
        /\ todo = SideIds(cells)
        /\ open = {} /\ pairs = {} /\ bnd = {} /\ phase = "meet"
Meet(sd) == /\ phase = "meet" /\ sd \in todo
            /\ todo' = todo \ {sd}
            /\ LET twin == {o \in open : SetOf(o) = SetOf(sd)} IN
               IF twin = {} \/ (Mutation = "unmatched" /\ Cardinality(SetOf(sd)) = 3)
               THEN open' = open \cup {sd} /\ pairs' = pairs
               ELSE \E o \in twin : open' = open \ {o} /\ pairs' = pairs \cup {<<o, sd>>}
            /\ UNCHANGED <<cells, bnd, phase>>
Close == /\ phase = "meet" /\ todo = {}
         /\ bnd' = open /\ open' = {} /\ phase' = "done"
         /\ UNCHANGED <<cells, todo, pairs>>
Next == (\E sd \in todo : Meet(sd)) \/ Close
Spec == Init /\ [][Next]_vars

\* the tables the algorithm ends with (any numbering: one is chosen)
SeqOf(S) == LET n == Cardinality(S) IN CHOOSE f \in [1..n -> S] : Range(f) = S
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
PairSeq == SetToSeq(pairs)
BndSeq == SetToSeq(bnd)
Flip(w) == IF Mutation = "flipped" THEN Rev(w) ELSE w
IFaces == [i \in 1..Len(PairSeq) |-> LET w == Side(cells[PairSeq[i][1][1]], PairSeq[i][1][2]) IN
             <<i - 1, FaceType(Len(w)), Flip(w)>>]
IF2C == [i \in 1..Len(PairSeq) |-> <<cells[PairSeq[i][1][1]][1], cells[PairSeq[i][2][1]][1]>>]
BFaces == [i \in 1..Len(BndSeq) |-> LET w == Side(cells[BndSeq[i][1]], BndSeq[i][2]) IN
             <<i - 1, FaceType(Len(w)), w>>]
BF2C == [i \in 1..Len(BndSeq) |-> <<cells[BndSeq[i][1]][1], -1>>]

\* every side is in exactly one place
Partition == phase = "meet" =>
   /\ {p[1] : p \in pairs} \cap {p[2] : p \in pairs} = {}
   /\ todo \cup open \cup {p[1] : p \in pairs} \cup {p[2] : p \in pairs} = SideIds(cells)
   /\ \A o \in open : \A p \in pairs : SetOf(o) # SetOf(p[1])
EndOK == phase = "done" =>
   /\ DirectOK(cells, IFaces, IF2C, BFaces, BF2C)
   /\ FaceFails(cells, IFaces, IF2C, BFaces, BF2C, 3) = {}
\* the certificate never accepts what the direct definition refuses
CertSound == phase = "done" =>
   (FaceFails(cells, IFaces, IF2C, BFaces, BF2C, 3) = {} => DirectOK(cells, IFaces, IF2C, BFaces, BF2C))
LibConforms == Conforming(Lib)
ASSUME LibConforms
=============================================================================
