------------------------------ MODULE MeshTrace ------------------------------
(* Recorded lives of meshes: each event is a call on the real code, with its
   arguments, what it raised and the state of the mesh after it.  The events
   of a case must be a behaviour of the mesh machine:
     start    a new mesh (no condition)        derive   make_face_connectivity
     convert  node marks to face marks         unmarked make_unmarked_BC
     reindex  renumber boundary faces          prepare  all of these, by a writer
     write    file of version ver              read     mesh of a file
     write4   files of version 4               read4    mesh of these
     refuse   a call that must fail                                           *)
EXTENDS Ic3V4, TraceLib
VARIABLES c, l
Ev(i, j) == Cases[i].ev[j]
HasPost(e) == "post" \in DOMAIN e
RECURSIVE PreOf(_, _)
PreOf(i, j) == IF HasPost(Ev(i, j)) THEN Ev(i, j).post ELSE PreOf(i, j - 1)
FileOf(i, e) == IF "file" \in DOMAIN e THEN e.file ELSE Ev(i, e.src).file
Endian(e) == IF e = "big" THEN ">" ELSE "<"     \* native is little on the machines where this runs

Fails(i, j) ==
  LET e == Ev(i, j) IN
  CASE e.op = "start" -> Cl("a mesh or mark cannot be made", e.exc = "")
    [] e.op = "refuse" -> Cl("accepted: " \o e.what, e.exc # "")
    [] e.op = "derive" -> IF e.exc # "" THEN {"face derivation fails on a valid mesh"} ELSE DeriveFails(PreOf(i, j-1), e.post)
    [] e.op = "convert" -> IF e.exc # "" THEN {"conversion of marks fails"} ELSE ConvertFails(PreOf(i, j-1), e.post)
    [] e.op = "unmarked" -> IF e.exc # "" THEN {"search of unmarked faces fails"} ELSE UnmarkedFails(PreOf(i, j-1), e.post, e.ret)
    [] e.op = "reindex" -> IF e.exc # "" THEN Cl("renumbering refused without overlap", Overlap(PreOf(i, j-1)))
                           ELSE Cl("overlapping marks are accepted", ~Overlap(PreOf(i, j-1))) \cup ReindexFails(PreOf(i, j-1), e.post)
    [] e.op = "prepare" -> PrepareFails(PreOf(i, j-1), e.post, e.exc)
    [] e.op = "write" -> WriteFails(PreOf(i, j-1), e.file, e.ver, e.exc)
                         \cup (IF e.exc = "" THEN Cl("byte order asked for", e.file.endian = Endian(e.endian)) ELSE {})
                         \cup (IF HasPost(e) THEN Cl("writing leaves the mesh as it is", SameMesh(PreOf(i, j-1), e.post)) ELSE {})
    [] e.op = "read" -> IF e.exc # "" THEN {"a complete file is not read"} ELSE ReadFails(FileOf(i, e), e.post, e.exc)
    [] e.op = "write4" -> Write4Fails(PreOf(i, j-1), e)
                          \cup (IF HasPost(e) THEN Cl("writing leaves the mesh as it is", SameMesh(PreOf(i, j-1), e.post)) ELSE {})
    [] e.op = "read4" -> IF e.exc # "" THEN {"complete files are not read"} ELSE Read4Fails(FileOf(i, e), e.post)
    [] OTHER -> {"unknown event"}
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(c, l + 1) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
