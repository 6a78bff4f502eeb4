------------------------------- MODULE Ic3V4 ---------------------------------
(* IC3 version 4 files: an HDF5 mesh and an optional HDF5 solution, as plain
   values, and the content they mean.  A version 4 file keeps of a mesh
     faces, cells on both sides, coordinates, boundary marks with their kind and
     translation (3 values);  with a solution: step, time, the conservative
     fields (when all of them are there), the statistics with their weights
   and nothing else (time step, partition, node data, other fields).          *)
EXTENDS Ic3File
ConsUp == {"RHO", "RHOU", "RHOE"}
ConsLow == {"rho", "rhou", "rhoe"}
\* ---- structure of the files
V4Shape(f) ==
  Cl("version 4, unstructured", f.fmt = 4 /\ f.mtype = "unstructured")
  \cup Cl("one size per face", Len(f.ni) = f.fa) \cup Cl("two cells per face", Len(f.cvofa) = 2 * f.fa)
  \cup Cl("sum of face sizes", Len(f.off) = f.fa + 1 /\ f.off[1] = 0 /\ (\A i \in 1..f.fa : f.ni[i] > 0 /\ f.off[i+1] = f.off[i] + f.ni[i])
                               /\ f.off[f.fa + 1] = Len(f.nv))
  \cup Cl("three coordinates per node", Len(f.xyz) = 3 * f.no)
  \cup Cl("one kind and range per label", Len(f.kinds) = Len(f.labels) /\ Len(f.offsets) = Len(f.labels) + 1)
V4Values(f) ==
  Cl("node numbers", \A i \in DOMAIN f.nv : f.nv[i] \in 0..(f.no - 1))
  \cup Cl("cell numbers", \A i \in 1..f.fa : f.cvofa[2*i-1] \in 0..(f.cv - 1) /\ f.cvofa[2*i] < f.cv)
  \cup Cl("ranges follow each other up to the last face",
          /\ f.offsets[1] = 0 /\ f.offsets[Len(f.offsets)] = f.fa
          /\ \A i \in 1..(Len(f.offsets) - 1) : f.offsets[i] <= f.offsets[i+1])
  \cup Cl("kinds of marks", \A i \in DOMAIN f.kinds : f.kinds[i] \in 1..6)
  \cup Cl("marks have different names", NoDup(f.labels))
  \cup Cl("translations belong to marks and have three values", \A i \in DOMAIN f.per : f.per[i][1] \in SetOfSeq(f.labels) /\ Len(f.per[i][2]) = 3)
  \cup Cl("values per cell", \A d \in SetOfSeq(f.sol.cons) \cup SetOfSeq(f.sol.stats) : Len(d[4]) = d[3] /\ d[3] % f.cv = 0 /\ d[3] > 0)
V4Fails(f) == IF f.err # "" THEN {"not a version 4 file"} ELSE LET a == V4Shape(f) IN IF a # {} THEN a ELSE V4Values(f)

\* ---- content
V4Nodes(f, i) == SubSeq(f.nv, f.off[i] + 1, f.off[i+1])
V4Fact(f, i) == <<V4Nodes(f, i), <<f.cvofa[2*i-1], f.cvofa[2*i]>>>>
V4Per(f, nm) == IF \E i \in DOMAIN f.per : f.per[i][1] = nm THEN Pad16((f.per[CHOOSE i \in DOMAIN f.per : f.per[i][1] = nm])[2]) ELSE Pad16(<<>>)
V4FieldShape(cv, n) == LET k == n \div cv IN CASE k = 1 -> <<cv>> [] k = 9 -> <<cv, 3, 3>> [] OTHER -> <<cv, k>>
V4Field(f, d) == <<d[2], "float64", V4FieldShape(f.cv, d[3]), d[4]>>
V4Content(f) ==
  [no |-> f.no, cv |-> f.cv, nf |-> f.fa,
   facts |-> {V4Fact(f, i) : i \in 1..f.fa},
   marks |-> {<<f.labels[k], ZoneType(f.kinds[k]), V4Per(f, f.labels[k]), {V4Fact(f, i) : i \in (f.offsets[k] + 1)..f.offsets[k+1]}>>
              : k \in {x \in DOMAIN f.labels : f.kinds[x] # 6}},
   xyz |-> [i \in 1..f.no |-> <<f.xyz[3*i-2], f.xyz[3*i-1], f.xyz[3*i]>>],
   step |-> f.sol.stepn, time |-> f.sol.time, wgt |-> SetOfSeq(f.sol.wgt),
   cd |-> {V4Field(f, d) : d \in {x \in SetOfSeq(f.sol.cons) : x[1] \in ConsLow} \cup SetOfSeq(f.sol.stats)}]
\* what a mesh means for a version 4 file (names: how each field is called in the file)
Per3(p) == Pad16([i \in 1..(IF Len(p) < 3 THEN Len(p) ELSE 3) |-> p[i]])
V4Marks(m) == {<<mk.name, mk.type, Per3(mk.per), MarkFacts(m, mk)>> : mk \in {x \in SetOfSeq(m.marks) : x.type # "internal"}}
NameOf(names, nm) == names[CHOOSE i \in DOMAIN names : names[i][1] = nm]
MeshV4(m, names, sol) ==
  LET has == {m.cd[i][1] : i \in DOMAIN m.cd}
      stats == {d \in SetOfSeq(m.cd) : NameOf(names, d[1])[4]}
      cons == IF ConsUp \subseteq has THEN {d \in SetOfSeq(m.cd) : d[1] \in ConsUp} ELSE {}
      k(d) == V4FieldShape(m.ncell, Len(d[5]))
  IN [no |-> m.nnode, cv |-> m.ncell, nf |-> m.nface, facts |-> AllFacts(m), marks |-> V4Marks(m), xyz |-> m.xyz,
      step |-> IF sol THEN m.state.stepn ELSE "0", time |-> IF sol THEN m.state.time ELSE Zero,
      wgt |-> IF sol /\ stats # {} THEN SetOfSeq(m.state.wgt) ELSE {},
      cd |-> IF sol THEN {<<NameOf(names, d[1])[3], "float64", k(d), d[5]>> : d \in cons \cup stats} ELSE {}]
\* what the mesh read from a version 4 file holds
MeshOf4(m) == LET c == MeshContent(m, 0) IN
  [no |-> c.no, cv |-> c.cv, nf |-> c.nf, facts |-> c.facts, marks |-> c.marks, xyz |-> c.xyz, step |-> c.step, time |-> c.time, wgt |-> c.wgt, cd |-> c.cd]
Diff4(a, b) == Cl("counts", a.no = b.no /\ a.cv = b.cv /\ a.nf = b.nf)
  \cup Cl("same faces, node order and cells", a.facts = b.facts)
  \cup Cl("same marks", a.marks = b.marks)
  \cup Cl("same coordinates", a.xyz = b.xyz)
  \cup Cl("same step and time", a.step = b.step /\ a.time = b.time)
  \cup Cl("same weights", a.wgt = b.wgt)
  \cup Cl("same conservative fields and statistics", a.cd = b.cd)
CellRows(m) == {<<c[2], c[3]>> : c \in SetOfSeq(m.cells)}
Write4Fails(m, e) ==
  IF e.exc # "" THEN {"a complete mesh is not written"} ELSE
  LET f == e.file ff == V4Fails(f) IN IF ff # {} THEN ff ELSE
  Cl("solution file when asked for", f.sol.has = e.sol)
  \cup Cl("cells of the mesh", IF m.cells = <<>> THEN f.cell = <<>> ELSE SetOfSeq(f.cell) = CellRows(m) /\ Len(f.cell) = Len(m.cells))
  \cup Diff4(MeshV4(m, e.names, e.sol), V4Content(f))
Read4Fails(f, m) ==
  IF ~MeshReady(m) THEN {"read mesh is inconsistent"} ELSE
  Diff4(V4Content(f), MeshOf4(m))
  \cup Cl("nothing that the file does not hold", m.nd = <<>> /\ ~m.part.has /\ m.state.dt = Zero)
=============================================================================
