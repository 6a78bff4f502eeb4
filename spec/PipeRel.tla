-------------------------------- MODULE PipeRel --------------------------------
(* What a conversion command must write.
   o: the options
        ver     2 or 3 (IC3 output), 0 (VTU output)
        cells, nodes   names of the data to remove (sets given as sequences)
        scale   <<>> or the three factors (tokens)     nz   0 or number of layers
   T: the mesh the file must hold = the mesh read, extruded, without the data, scaled *)
EXTENDS Ic3File, ExtrudeRel

Drop(d, names) == SelectSeq(d, LAMBDA x : x[1] \notin SetOfSeq(names))
\* mul: products of a coordinate and a factor, computed apart: mul["a*b"]
Times(mul, a, b) == mul[a \o "*" \o b]
Scaled(xyz, s, mul) == IF s = <<>> THEN xyz ELSE [i \in DOMAIN xyz |-> [a \in 1..3 |-> Times(mul, xyz[i][a], s[a])]]
Transformed(m, o, mul) == [m EXCEPT !.xyz = Scaled(m.xyz, o.scale, mul), !.nd = Drop(m.nd, o.nodes), !.cd = Drop(m.cd, o.cells)]

\* ---- a file of cells (GMSH, CGNS) and the mesh read from it: numbering of nodes and cells is free
PtSet(xyz, ns) == {xyz[ns[i] + 1] : i \in DOMAIN ns}
Spread(xyz, ns) == [i \in DOMAIN ns |-> xyz[ns[i] + 1]]
CellFacts(xyz, cells) == {<<cells[i][2], Spread(xyz, cells[i][3])>> : i \in DOMAIN cells}
SomeNodes(m, xyz) == {mk \in SetOfSeq(m.marks) : PtSet(xyz, mk.index) # SetOfSeq(xyz)}
SourceFails(src, m, exc) ==
  IF exc # "" THEN {"the input is not read"} ELSE
  Cl("nodes of the input", m.nnode = Len(src.xyz) /\ Len(m.xyz) = m.nnode /\ SetOfSeq(m.xyz) = SetOfSeq(src.xyz))
  \cup Cl("cells of the input", m.ncell = Len(src.cells) /\ Len(m.cells) = m.ncell /\ CellFacts(m.xyz, m.cells) = CellFacts(src.xyz, src.cells))
  \cup Cl("marks of the input", {<<mk.name, PtSet(m.xyz, mk.index)>> : mk \in SomeNodes(m, m.xyz)}
                                = {<<mk.name, PtSet(src.xyz, mk.index)>> : mk \in SomeNodes(src, src.xyz)})
  \cup Cl("no data in the input", m.nd = <<>> /\ m.cd = <<>>)

\* ---- faces and marks of an IC3 file, as a mesh with the ground of T
Nums(n, F(_)) == SelectSeq([i \in 1..n |-> i], F)
TableOf(f, S) == [has |-> TRUE, f |-> [j \in DOMAIN S |-> <<j - 1, FaceType(Len(FaceNodes(f, S[j]))), FaceNodes(f, S[j])>>],
                  c |-> [j \in DOMAIN S |-> FaceCells(f, S[j])]]
Described(T, f) ==
  LET B == Nums(Fa(f), LAMBDA i : FaceCells(f, i)[2] = -1)
      I == Nums(Fa(f), LAMBDA i : FaceCells(f, i)[2] # -1)
      num == [i \in SetOfSeq(B) |-> (CHOOSE j \in DOMAIN B : B[j] = i) - 1]
      Z == SelectSeq(f.sec, LAMBDA s : s.k = "FA_ZONE" /\ s.i[1] # 6)
  IN [T EXCEPT !.int = TableOf(f, I), !.bnd = TableOf(f, B), !.nface = Fa(f),
      !.marks = [j \in DOMAIN Z |-> [name |-> Z[j].name, geodim |-> "bdface", type |-> ZoneType(Z[j].i[1]), repr |-> "range", per |-> Z[j].r,
                 index |-> [k \in 1..(Z[j].i[3] - Z[j].i[2] + 1) |-> LET i == Z[j].i[2] + k IN IF i \in DOMAIN num THEN num[i] ELSE -1]]]]
FromCellsFails(T, f, ver) ==
  LET ff == FileFails(f) IN IF ff # {} THEN ff ELSE
  LET D == Described(T, f) pf == PrepareFails(T, D, "") IN
  Cl("version asked for", f.version = ver) \cup
  (IF pf # {} THEN pf ELSE DiffMesh(MeshContent(D, ver), FileContent(f)) \cup DiffFields(MeshContent(D, ver), FileContent(f)))
\* ---- VTU
Bag(s) == {<<s[i], Cardinality({j \in DOMAIN s : s[j] = s[i]})>> : i \in DOMAIN s}
Bare(cells) == [i \in DOMAIN cells |-> <<cells[i][2], cells[i][3]>>]
GridFails(T, g) == Cl("same points, in order", g.xyz = T.xyz) \cup Cl("same cells", Bag(Bare(g.cells)) = Bag(Bare(T.cells)))

\* ---- one command on the mesh m (read, then extruded if asked for), whose input has faces or not
\* tree: same (all files that were there are unchanged), new (files made), ret (file named), dir, suf, wantdir,
\* name, wantname (name of the input with the new suffix; empty if it is taken)
OnlyOutput(t, suf) == Cl("the files that were there are unchanged", t.same)
  \cup Cl("one file is made, the one that is announced", t.new = <<t.ret>>)
  \cup Cl("the file is in the folder asked for, with the suffix of its format", t.dir = t.wantdir /\ t.suf = suf)
  \cup Cl("the file has the name of the input, if it is free", t.wantname = "" \/ t.name = t.wantname)
ConvFails(m, o, mul, hasfaces, exc, out, tree) ==
  LET T == Transformed(m, o, mul) IN
  IF exc # "" THEN Cl("the files that were there are unchanged", tree.same)
                   \cup Cl("a correct command is refused", o.ver # 0 /\ ~hasfaces /\ Overlap(T)) ELSE
  OnlyOutput(tree, IF o.ver = 0 THEN ".vtu" ELSE ".ic3") \cup
  (IF o.ver = 0 THEN GridFails(T, out)
   ELSE IF hasfaces THEN WriteFails(T, out, o.ver, "") ELSE FromCellsFails(T, out, o.ver))
=============================================================================
