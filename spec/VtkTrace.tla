------------------------------- MODULE VtkTrace -------------------------------
(* Recorded lives of vtkMesh objects and files.  st.o: what each object holds (<<>> if nothing),
   st.f: what each file holds, st.lat: lattice positions of the points of the object or file.  *)
EXTENDS VtkRel, TraceLib
VARIABLES c, l, st
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Files(e, s) == [k \in DOMAIN e.files |-> s.f[e.files[k]].g]
\* the mesh of a dump, cells in the order of the tables
OfHdf(h) == [points |-> h.nodes, cells |-> Flat(h.tables), fields |-> <<>>]
New(e, s) == Cl("an existing file is replaced only if asked", e.over \/ e.name \notin DOMAIN s.f)
Fails(i, e, s) == LET a == Cases[i] IN
  IF e.exc # "" THEN {"it succeeds"} ELSE
  Cl("the meshes and grids given are left as they are", e.kept) \cup
  CASE e.op = "set" -> MeshFails(a.meshes[e.mesh], e.got)
    [] e.op = "pv" -> GridFails(e.given, e.got)
    [] e.op = "export" -> ExportFails(s.o[e.o].g, e.got)
    [] e.op = "save" -> {}
    [] e.op = "load" -> GridFails(s.f[e.name].g, e.got)
    [] e.op = "dump" -> New(e, s) \cup Cl("kind of file", e.h5.kind = "dataset" /\ e.h5.steps = <<>>) \cup HdfFails(s.o[e.o].g, e.h5)
    [] e.op = "import" -> MeshFails(OfHdf(s.f[e.name].h), e.got)
    [] e.op = "volumes" -> VolumeFails(s.o[e.o].g.cells, s.o[e.o].lat, e.got)
    [] e.op = "series" -> New(e, s) \cup SeriesFails(Files(e, s), e.filter, e.h5) \cup (IF e.xdmf THEN XmfFails(Files(e, s), e.filter, e.xmf) ELSE {})
    [] e.op = "list" -> New(e, s) \cup ListFails(a.meshes[e.mesh], e.given, e.nodal, e.h5)
    [] e.op = "look" -> Cl("a dump is not changed by later ones", s.f[e.name].h = e.h5)
    [] OTHER -> {"unknown event"}
Obj(s, k, g, lat) == [s EXCEPT !.o = Put(s.o, k, [g |-> g, lat |-> lat])]
File(s, k, g, h, lat) == [s EXCEPT !.f = Put(s.f, k, [g |-> g, h |-> h, lat |-> lat])]
After(i, e, s) == LET a == Cases[i] IN
  CASE e.op = "set" -> Obj(s, e.o, e.got, a.meshes[e.mesh].lat)
    [] e.op = "pv" -> Obj(s, e.o, e.got, e.lat)
    [] e.op = "save" -> File(s, e.name, s.o[e.o].g, <<>>, s.o[e.o].lat)
    [] e.op = "load" -> Obj(s, e.o, e.got, s.f[e.name].lat)
    [] e.op = "dump" -> File(s, e.name, <<>>, e.h5, s.o[e.o].lat)
    [] e.op = "import" -> Obj(s, e.o, e.got, s.f[e.name].lat)
    [] e.op = "series" -> File(s, e.name, <<>>, e.h5, s.f[e.files[1]].lat)
    [] e.op = "list" -> File(s, e.name, <<>>, e.h5, a.meshes[e.mesh].lat)
    [] OTHER -> s
Init == c \in DOMAIN Cases /\ l = 0 /\ st = [o |-> <<>>, f |-> [x \in DOMAIN Cases[c].files |-> [g |-> Cases[c].files[x], h |-> <<>>, lat |-> Cases[c].lat]]]
Next == /\ l < Len(Cases[c].ev)
        /\ LET e == Cases[c].ev[l + 1] f == Fails(c, e, st) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f) /\ UNCHANGED st
           ELSE l' = l + 1 /\ st' = After(c, e, st) /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
