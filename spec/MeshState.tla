----------------------------- MODULE MeshState ------------------------------
(* The abstract state of a mesh and the relations between the states before
   and after each operation of the package.  A mesh is a record
     nnode, ncell, nface
     xyz     sequence of triples of coordinates (tokens of the exact doubles)
     cells   sequence of <<number, type, nodes>>
     int, bnd, mix   face tables: has, f (<<number, type, nodes>> by number), c (cells)
     marks   sequence of [name, geodim, type, repr, index, per]
     part    [has, npart, icv]     state  [step, dt, time, wgt]
     nd, cd  sequences of <<name, dtype, shape, tokens, tokens as double>>     *)
EXTENDS FaceRel

Zero == "0000000000000000"
NodeMark(m) == m.geodim \in {"node", "bdnode", "intnode"}
FaceMark(m) == m.geodim \in {"face", "bdface", "intface"}
Pad16(p) == [i \in 1..16 |-> IF i <= Len(p) THEN p[i] ELSE Zero]
SetOfSeq(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(SetOfSeq(s)) = Len(s)

TableOK(T) == /\ Len(T.f) = Len(T.c)
              /\ \A i \in DOMAIN T.f : T.f[i][1] = i - 1 /\ T.f[i][2] = FaceType(Len(T.f[i][3])) /\ Len(T.c[i]) = 2
FaceFact(T, n) == <<T.f[n + 1][3], T.c[n + 1]>>
Facts(T) == {<<T.f[i][3], T.c[i]>> : i \in DOMAIN T.f}
Tables(m) == {T \in {m.int, m.bnd, m.mix} : T.has}
HasFaces(m) == m.int.has \/ m.bnd.has \/ m.mix.has
AllFacts(m) == UNION {Facts(T) : T \in Tables(m)}
BndTable(m) == IF m.bnd.has THEN m.bnd ELSE m.mix
IndexOK(m, mk) == LET n == Len(BndTable(m).f) IN \A i \in DOMAIN mk.index : mk.index[i] \in 0..(n - 1)
MarkFacts(m, mk) == LET T == BndTable(m) IN {FaceFact(T, i) : i \in SetOfSeq(mk.index)}
Contiguous(mk) == \A i \in DOMAIN mk.index : mk.index[i] = mk.index[1] + i - 1
MarkNamed(m, nm) == CHOOSE mk \in SetOfSeq(m.marks) : mk.name = nm
MarkNames(m) == {m.marks[i].name : i \in DOMAIN m.marks}

\* everything that no operation on faces and marks may touch
SameGround(a, b) == /\ a.nnode = b.nnode /\ a.ncell = b.ncell /\ a.xyz = b.xyz /\ a.cells = b.cells
                    /\ a.part = b.part /\ a.state = b.state /\ a.nd = b.nd /\ a.cd = b.cd /\ a.ndof = b.ndof
SameFaces(a, b) == a.int = b.int /\ a.bnd = b.bnd /\ a.mix = b.mix
SameMarks(a, b) == a.marks = b.marks
SameMesh(a, b) == SameGround(a, b) /\ SameFaces(a, b) /\ SameMarks(a, b)
SameMarkHead(x, y) == x.name = y.name /\ x.type = y.type /\ Pad16(x.per) = Pad16(y.per)

\* ---- faces derived from the cells
DeriveFails(pre, post) ==
  Cl("ground kept", SameGround(pre, post)) \cup Cl("marks kept", SameMarks(pre, post))
  \cup Cl("faces split", post.int.has /\ post.bnd.has /\ ~post.mix.has)
  \cup (IF TableOK(post.int) /\ TableOK(post.bnd)
        THEN FaceFails(pre.cells, post.int.f, post.int.c, post.bnd.f, post.bnd.c, 3)
             \cup Cl("number of faces", post.nface = Len(post.int.f) + Len(post.bnd.f))
        ELSE {"face tables"})

\* ---- what a mark claims, on the faces of mesh m (m has its faces)
Claim(pre, m, mk) == IF NodeMark(mk) THEN LET S == SetOfSeq(mk.index) IN {q \in Facts(m.bnd) : Range(q[1]) \subseteq S}
                     ELSE MarkFacts(pre, mk)
\* without faces: the side sets of the cells that occur once
BoundarySets(m) == IF m.bnd.has THEN {Range(m.bnd.f[i][3]) : i \in DOMAIN m.bnd.f}
                   ELSE {s \in AllSideSets(m.cells) : Cardinality(Sharing(m.cells, s)) = 1}
ClaimSets(m, B, mk) == IF NodeMark(mk) THEN {s \in B : s \subseteq SetOfSeq(mk.index)}
                       ELSE {Range(q[1]) : q \in MarkFacts(m, mk)}
Overlap(m) == LET B == BoundarySets(m)
                  CS == [k \in DOMAIN m.marks |-> ClaimSets(m, B, m.marks[k])]
              IN \E i, j \in DOMAIN m.marks : i < j /\ CS[i] \cap CS[j] # {}

\* ---- node marks become face marks
ConvertFails(pre, post) ==
  Cl("ground kept", SameGround(pre, post)) \cup Cl("faces kept", SameFaces(pre, post))
  \cup Cl("same marks, same order", Len(pre.marks) = Len(post.marks)
          /\ \A k \in DOMAIN pre.marks : SameMarkHead(pre.marks[k], post.marks[k]))
  \cup (IF Len(pre.marks) # Len(post.marks) \/ (\E k \in DOMAIN post.marks : ~FaceMark(post.marks[k]) \/ ~IndexOK(post, post.marks[k]))
        THEN {"marks are face marks"} ELSE
        Cl("a node mark becomes the boundary faces all of whose nodes it holds",
           \A k \in DOMAIN pre.marks : NodeMark(pre.marks[k]) =>
              MarkFacts(post, post.marks[k]) = Claim(pre, post, pre.marks[k]) /\ NoDup(post.marks[k].index))
        \cup Cl("face marks keep their faces",
           \A k \in DOMAIN pre.marks : ~NodeMark(pre.marks[k]) => post.marks[k] = pre.marks[k]))

\* ---- the faces without mark get one (result: the faces found)
UnmarkedFails(pre, post, ret) ==
  LET claimed == UNION {SetOfSeq(pre.marks[k].index) : k \in DOMAIN pre.marks}
      free == {i \in 0..(Len(pre.bnd.f) - 1) : i \notin claimed}
      old == MarkNames(pre)
      new == {k \in DOMAIN post.marks : post.marks[k].name \notin old}
  IN Cl("ground kept", SameGround(pre, post)) \cup Cl("faces kept", SameFaces(pre, post))
     \cup Cl("marks kept", \A k \in DOMAIN pre.marks : \E j \in DOMAIN post.marks : post.marks[j] = pre.marks[k])
     \cup Cl("one additional mark exactly when faces are free",
             IF free = {} THEN Len(post.marks) = Len(pre.marks)
             ELSE Len(post.marks) = Len(pre.marks) + 1 /\ Cardinality(new) = 1
                  /\ \A k \in new : LET mk == post.marks[k] IN
                        SetOfSeq(mk.index) = free /\ NoDup(mk.index) /\ FaceMark(mk) /\ mk.type = "boundary")
     \cup Cl("the faces found are returned", SetOfSeq(ret) = free)

\* ---- every mark becomes a contiguous range
ReindexFails(pre, post) ==
  Cl("ground kept", SameGround(pre, post))
  \cup Cl("internal faces kept", pre.int = post.int /\ pre.mix = post.mix)
  \cup Cl("same marks", MarkNames(pre) = MarkNames(post) /\ Len(pre.marks) = Len(post.marks))
  \cup (IF ~TableOK(post.bnd) THEN {"face tables"} ELSE
        Cl("same boundary faces and owners", Facts(pre.bnd) = Facts(post.bnd) /\ Len(pre.bnd.f) = Len(post.bnd.f))
        \cup (IF MarkNames(pre) # MarkNames(post) THEN {} ELSE
              UNION {LET a == pre.marks[k] b == MarkNamed(post, a.name) IN
                Cl("mark head kept", SameMarkHead(a, b) /\ a.geodim = b.geodim)
                \cup Cl("mark is a range", Contiguous(b) /\ (b.index # <<>> => b.repr = "range"))
                \cup Cl("mark keeps its faces", IndexOK(post, b) /\ Len(a.index) = Len(b.index)
                                                /\ MarkFacts(post, b) = MarkFacts(pre, a)) : k \in DOMAIN pre.marks}))

\* ---- preparation of a mesh for writing = derive, convert, complete, renumber
Tiled(m) == \* every boundary face in exactly one mark
  LET n == Len(m.bnd.f)
      fm == {k \in DOMAIN m.marks : FaceMark(m.marks[k])}
  IN /\ UNION {SetOfSeq(m.marks[k].index) : k \in fm} = 0..(n - 1)
     /\ \A j, k \in fm : j < k => SetOfSeq(m.marks[j].index) \cap SetOfSeq(m.marks[k].index) = {}
     /\ \A k \in fm : NoDup(m.marks[k].index)
PrepareFails(pre, post, exc) ==
  IF exc # "" THEN Cl("a mesh without overlapping marks is refused", Overlap(pre)) ELSE
  IF pre.mix.has THEN Cl("a prepared mesh is left as it is", SameMesh(pre, post)) ELSE
  IF Overlap(pre) THEN {"overlapping marks are accepted"} ELSE
  Cl("ground kept", SameGround(pre, post))
  \cup (IF ~(post.int.has /\ post.bnd.has /\ TableOK(post.int) /\ TableOK(post.bnd)) THEN {"face tables"} ELSE
    (IF HasFaces(pre)
     THEN Cl("internal faces kept", pre.int = post.int)
          \cup Cl("same boundary faces and owners", Facts(pre.bnd) = Facts(post.bnd) /\ Len(pre.bnd.f) = Len(post.bnd.f))
     ELSE FaceFails(pre.cells, post.int.f, post.int.c, post.bnd.f, post.bnd.c, 3))
    \cup (IF ~(\A k \in DOMAIN post.marks : FaceMark(post.marks[k]) /\ IndexOK(post, post.marks[k])) THEN {"marks are face marks"} ELSE
      LET old == MarkNames(pre)
          new == {k \in DOMAIN post.marks : post.marks[k].name \notin old}
          claims == [k \in DOMAIN pre.marks |-> Claim(pre, post, pre.marks[k])]
          free == Facts(post.bnd) \ UNION {claims[k] : k \in DOMAIN pre.marks}
      IN Cl("no mark lost", old \subseteq MarkNames(post) /\ Len(post.marks) = Len(pre.marks) + Cardinality(new))
         \cup (IF ~(old \subseteq MarkNames(post)) THEN {} ELSE
           UNION {LET a == pre.marks[k] b == MarkNamed(post, a.name) IN
             Cl("mark head kept", SameMarkHead(a, b))
             \cup Cl("a mark holds exactly its faces", MarkFacts(post, b) = claims[k]) : k \in DOMAIN pre.marks})
         \cup Cl("free faces are put in one additional mark",
              IF free = {} THEN new = {} ELSE Cardinality(new) = 1 /\ \A k \in new : MarkFacts(post, post.marks[k]) = free)
         \cup Cl("every boundary face in exactly one mark", Tiled(post))
         \cup Cl("every mark is a range", \A k \in DOMAIN post.marks : Contiguous(post.marks[k]))))
=============================================================================
