------------------------------- MODULE Ic3File -------------------------------
(* IC3 version 2 and 3 files: chain of sections, and the content they mean.
   A parsed file: endian, magic, version, end, size, err and sec, a sequence of
     [k, id, name, clean, start, skip, i (8), r (16), nb, v, rest]            *)
EXTENDS MeshState

Magic == 123581321
Kinds == {"COUNTS", "I0", "D0", "FA_CHECK", "NOOFA", "CVOFA", "FA_ZONE", "FA_D1", "FA_D3", "FA_II1", "NO_CHECK", "X_NO",
          "NO_D1", "NO_D3", "NO_II1", "CV_CHECK", "CV_PART", "CV_D1", "CV_D3", "CV_D33", "CV_II1", "DATA", "EOF"}
Once == {"COUNTS", "NOOFA", "CVOFA", "CV_PART", "X_NO", "EOF"}
Checks == {"NO_CHECK", "FA_CHECK", "CV_CHECK"}
NodeFields == {"NO_D1", "NO_D3", "NO_II1"}
CellFields == {"CV_D1", "CV_D3", "CV_D33", "CV_II1"}
Comp(k) == CASE k \in {"NO_D3", "CV_D3", "FA_D3", "X_NO"} -> 3 [] k = "CV_D33" -> 9 [] OTHER -> 1
ZoneType(n) == CASE n = 1 -> "boundary" [] n = 2 -> "perio_cart" [] n = 3 -> "perio_cylx" [] n = 4 -> "perio_cyly"
                 [] n = 5 -> "perio_cylz" [] n = 6 -> "internal" [] OTHER -> "unknown"

At(f, k) == {j \in DOMAIN f.sec : f.sec[j].k = k}
The(f, k) == f.sec[CHOOSE j \in DOMAIN f.sec : f.sec[j].k = k]
No(f) == The(f, "COUNTS").i[1]
Fa(f) == The(f, "COUNTS").i[2]
Cv(f) == The(f, "COUNTS").i[3]
NoOfFa(f) == The(f, "COUNTS").i[4]
Ndof(f, s) == IF f.version >= 3 /\ s.i[2] > 1 THEN s.i[2] ELSE 1
Entities(f, s) == CASE s.k \in NodeFields -> No(f) [] s.k \in CellFields -> Cv(f) * Ndof(f, s) [] OTHER -> Fa(f)
Zones(f) == At(f, "FA_ZONE")

ChainFails(f) ==
  Cl("magic number", f.magic = Magic) \cup Cl("version 2 or 3", f.version \in {2, 3})
  \cup Cl("chain of sections", f.err = "" /\ Len(f.sec) > 0 /\ f.end = f.size)
  \cup (IF Len(f.sec) = 0 THEN {} ELSE
     Cl("gap-free chain", f.sec[1].start = 8 /\ \A j \in 1..(Len(f.sec) - 1) : f.sec[j+1].start = f.sec[j].start + f.sec[j].skip)
     \cup Cl("data announced by skip", \A j \in DOMAIN f.sec : f.sec[j].skip = 256 + f.sec[j].nb /\ f.sec[j].rest = 0)
     \cup Cl("ends with one EOF section", f.sec[Len(f.sec)].k = "EOF" /\ f.sec[Len(f.sec)].skip = 256 /\ Cardinality(At(f, "EOF")) = 1)
     \cup Cl("known sections with clean names", \A j \in DOMAIN f.sec : f.sec[j].k \in Kinds /\ f.sec[j].clean)
     \cup Cl("each required section once", \A k \in Once : Cardinality(At(f, k)) = 1))

CheckList(f, k, n) == LET s == The(f, k) IN s.i[1] = n /\ Len(s.v) = n /\ \A i \in 1..n : s.v[i] = i - 1
ZoneTile(f) == \* ranges of faces, in the order of their start, follow each other from 0 to the last face
  LET Z == {<<f.sec[j].i[2], f.sec[j].i[3]>> : j \in {j \in Zones(f) : f.sec[j].i[3] >= f.sec[j].i[2]}}
      n == Fa(f)
  IN /\ Cardinality({j \in Zones(f) : f.sec[j].i[3] >= f.sec[j].i[2]}) = Cardinality(Z)
     /\ \A z \in Z : z[1] >= 0 /\ z[2] < n
     /\ n > 0 => \E z \in Z : z[1] = 0
     /\ \A z \in Z : z[2] = n - 1 \/ \E y \in Z : y[1] = z[2] + 1
     /\ \A z \in Z : z[1] = 0 \/ \E y \in Z : y[2] = z[1] - 1
     /\ \A y, z \in Z : y[1] = z[1] => y = z
CountFails(f) ==
  LET no == No(f) fa == Fa(f) cv == Cv(f) nn == NoOfFa(f)
      N == The(f, "NOOFA") C == The(f, "CVOFA") P == The(f, "CV_PART") X == The(f, "X_NO") IN
  Cl("counts of NOOFA", N.i[1] = fa /\ N.i[2] = nn /\ Len(N.v) = fa + nn)
  \cup Cl("counts of CVOFA", C.i[1] = fa /\ C.i[2] = 2 /\ Len(C.v) = 2 * fa)
  \cup Cl("counts of CV_PART", P.i[1] = cv /\ Len(P.v) = cv /\ \A j \in DOMAIN P.v : P.v[j] \in 0..(P.i[2] - 1))
  \cup Cl("counts of X_NO", X.i[1] = no /\ X.i[2] = 3 /\ Len(X.v) = 3 * no)
  \cup Cl("check sections in version 2 only",
          IF f.version = 2 THEN (\A k \in Checks : Cardinality(At(f, k)) = 1)
                                /\ CheckList(f, "NO_CHECK", no) /\ CheckList(f, "FA_CHECK", fa) /\ CheckList(f, "CV_CHECK", cv)
          ELSE \A k \in Checks : At(f, k) = {})
  \cup Cl("counts of fields", \A j \in DOMAIN f.sec : LET s == f.sec[j] IN
          s.k \in NodeFields \cup CellFields =>
            /\ s.i[1] = (IF s.k \in NodeFields THEN no ELSE cv)
            /\ Len(s.v) = Entities(f, s) * Comp(s.k) /\ s.nb = 8 * Len(s.v))
  \cup Cl("zones tile the faces", ZoneTile(f))
  \cup Cl("zone kinds", \A j \in Zones(f) : f.sec[j].i[1] \in 1..6)
  \cup Cl("one of each informative value", \A nm \in {"DT", "TIME"} : Cardinality({j \in At(f, "D0") : f.sec[j].name = nm}) = 1)
  \cup Cl("one step", Cardinality({j \in At(f, "I0") : f.sec[j].name = "STEP"}) = 1)
\* off: witness of the prefix sums of the numbers of nodes per face
OffOK(f) == LET N == The(f, "NOOFA") off == N.off IN
  /\ Len(off) = Fa(f) + 1 /\ off[1] = 0 /\ off[Fa(f) + 1] = NoOfFa(f)
  /\ \A i \in 1..Fa(f) : off[i+1] = off[i] + N.v[i] /\ N.v[i] > 0
FaceNodes(f, i) == LET N == The(f, "NOOFA") IN SubSeq(N.v, Fa(f) + N.off[i] + 1, Fa(f) + N.off[i+1])
FaceCells(f, i) == LET C == The(f, "CVOFA") IN <<C.v[2*i - 1], C.v[2*i]>>
TopoFails(f) ==
  IF ~OffOK(f) THEN {"faces of NOOFA"} ELSE
  Cl("node numbers", \A i \in 1..NoOfFa(f) : The(f, "NOOFA").v[Fa(f) + i] \in 0..(No(f) - 1))
  \cup Cl("cell numbers", \A i \in 1..Fa(f) : FaceCells(f, i)[1] \in 0..(Cv(f)-1) /\ FaceCells(f, i)[2] < Cv(f))
FileFails(f) == LET a == ChainFails(f) IN IF a # {} THEN a ELSE
                LET b == CountFails(f) IN IF b # {} THEN b ELSE TopoFails(f)

\* ---- content -----------------------------------------------------------------
FFact(f, i) == <<FaceNodes(f, i), FaceCells(f, i)>>
Shape(f, s) == CASE Comp(s.k) = 1 -> <<Entities(f, s)>> [] Comp(s.k) = 3 -> <<Entities(f, s), 3>> [] OTHER -> <<Entities(f, s), 3, 3>>
DType(k) == IF k \in {"NO_II1", "CV_II1"} THEN "int64" ELSE "float64"
FileContent(f) ==
  LET N == The(f, "COUNTS") IN
  [no |-> No(f), cv |-> Cv(f), nf |-> Fa(f),
   facts |-> {FFact(f, i) : i \in 1..Fa(f)},
   marks |-> {<<f.sec[j].name, ZoneType(f.sec[j].i[1]), f.sec[j].r,
                {FFact(f, i) : i \in (f.sec[j].i[2] + 1)..(f.sec[j].i[3] + 1)}>> : j \in {z \in Zones(f) : f.sec[z].i[1] # 6}},
   xyz |-> LET X == The(f, "X_NO").v IN [i \in 1..No(f) |-> <<X[3*i-2], X[3*i-1], X[3*i]>>],
   part |-> LET P == The(f, "CV_PART") IN <<P.i[2], P.v>>,
   step |-> LET S == f.sec[CHOOSE j \in At(f, "I0") : f.sec[j].name = "STEP"] IN S.istep,
   dt |-> f.sec[CHOOSE j \in At(f, "D0") : f.sec[j].name = "DT"].r[1],
   time |-> f.sec[CHOOSE j \in At(f, "D0") : f.sec[j].name = "TIME"].r[1],
   wgt |-> {<<f.sec[j].low, f.sec[j].r[1]>> : j \in {z \in At(f, "D0") : f.sec[z].isw}},
   nd |-> {<<f.sec[j].name, DType(f.sec[j].k), Shape(f, f.sec[j]), f.sec[j].v>> : j \in {z \in DOMAIN f.sec : f.sec[z].k \in NodeFields}},
   nnd |-> Cardinality({z \in DOMAIN f.sec : f.sec[z].k \in NodeFields}),
   cd |-> {<<f.sec[j].name, DType(f.sec[j].k), Shape(f, f.sec[j]), f.sec[j].v>> : j \in {z \in DOMAIN f.sec : f.sec[z].k \in CellFields}},
   ncd |-> Cardinality({z \in DOMAIN f.sec : f.sec[z].k \in CellFields})]

\* what a mesh means for a file of the given version (0: as it is)
Field(d, ver) == IF ver = 2 /\ d[2] # "float64" THEN <<d[1], "float64", d[3], d[5]>> ELSE <<d[1], d[2], d[3], d[4]>>
MeshContent(m, ver) ==
  [no |-> m.nnode, cv |-> m.ncell, nf |-> m.nface,
   facts |-> AllFacts(m),
   marks |-> {<<mk.name, mk.type, Pad16(mk.per), MarkFacts(m, mk)>> : mk \in {x \in SetOfSeq(m.marks) : x.type # "internal"}},
   xyz |-> m.xyz,
   part |-> IF m.part.has THEN <<m.part.npart, m.part.icv>> ELSE <<1, [i \in 1..m.ncell |-> 0]>>,
   step |-> m.state.stepn, dt |-> m.state.dt, time |-> m.state.time, wgt |-> SetOfSeq(m.state.wgt),
   nd |-> {Field(d, ver) : d \in SetOfSeq(m.nd)}, nnd |-> Len(m.nd),
   cd |-> {Field(d, ver) : d \in SetOfSeq(m.cd)}, ncd |-> Len(m.cd)]

DiffMesh(a, b) == Cl("counts", a.no = b.no /\ a.cv = b.cv /\ a.nf = b.nf)
  \cup Cl("same faces, node order and cells", a.facts = b.facts)
  \cup Cl("same marks", a.marks = b.marks)
  \cup Cl("same coordinates", a.xyz = b.xyz)
  \cup Cl("same partition", a.part = b.part)
  \cup Cl("same step, time step and time", a.step = b.step /\ a.dt = b.dt /\ a.time = b.time)
  \cup Cl("same weights", a.wgt = b.wgt)
DiffFields(a, b) == Cl("same node fields", a.nd = b.nd /\ a.nnd = b.nnd) \cup Cl("same cell fields", a.cd = b.cd /\ a.ncd = b.ncd)
MeshReady(m) == /\ \A T \in Tables(m) : TableOK(T)
                /\ \A k \in DOMAIN m.marks : FaceMark(m.marks[k]) /\ IndexOK(m, m.marks[k])
WriteFails(m, f, ver, exc) ==
  IF exc # "" THEN {"a complete mesh is not written"} ELSE
  LET ff == FileFails(f) IN IF ff # {} THEN ff ELSE
  Cl("version asked for", f.version = ver)
  \cup DiffMesh(MeshContent(m, ver), FileContent(f)) \cup DiffFields(MeshContent(m, ver), FileContent(f))
ReadFails(f, m, exc) ==
  IF exc # "" THEN {"a complete file is not read"} ELSE
  IF ~MeshReady(m) THEN {"read mesh is inconsistent"} ELSE
  DiffMesh(FileContent(f), MeshContent(m, 0)) \cup DiffFields(FileContent(f), MeshContent(m, 0))
=============================================================================
