------------------------------- MODULE CubeTrace -------------------------------
(* Recorded boxes:  cube (n, state of the mesh), derive, convert, prepare (MeshState),
   sides (the faces of each mark, as lists of nodes),
   file (IC3 file written by the command, parsed; witness: the prepared mesh of the
   same size), grid (VTU file written by the command: points and cells),
   other (a second mesh of the same generator, or of another)                     *)
EXTENDS CubeRel, Ic3File, TraceLib
VARIABLES c, l
Ev(i, j) == Cases[i].ev[j]
Fails(i, j) ==
  LET e == Ev(i, j) n == Cases[i].n IN
  IF e.exc # "" THEN {"a box cannot be made: " \o e.op} ELSE
  CASE e.op = "cube" -> CubeFails(n, e.post) \cup Cl("a new mesh has no faces, data or parameters",
                           ~HasFaces(e.post) /\ e.post.nd = <<>> /\ e.post.cd = <<>> /\ ~e.post.part.has)
    [] e.op = "again" -> Cl("the generator gives the same mesh again", e.post = Ev(i, 1).post)
    [] e.op = "derive" -> DeriveFails(Ev(i, j - 1).post, e.post)
    [] e.op = "convert" -> ConvertFails(Ev(i, j - 1).post, e.post)
    [] e.op = "prepare" -> PrepareFails(Ev(i, 1).post, e.post, "")
    [] e.op = "sides" -> FaceSidesFails(n, Ev(i, 1).post, e.bnd, e.names, e.sets)
    [] e.op = "file" -> Cl("a file of the requested format, and no other, is written", e.only)
                        \cup WriteFails(Ev(i, j - 1).post, e.file, e.file.version, "")
    [] e.op = "grid" -> Cl("a file of the requested format, and no other, is written", e.only) \cup GridFails(n, e.post)
    [] OTHER -> {"unknown event"}
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(c, l + 1) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
