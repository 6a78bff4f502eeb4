------------------------------- MODULE EditTrace -------------------------------
(* Recorded histories of edits: every event has the state of the mesh after it, what
   was raised and returned, and digests of what the caller holds: the arrays given and
   another mesh made of the same arrays (field others).                            *)
EXTENDS EditRel, TraceLib
VARIABLES c, l
Ev(i, j) == Cases[i].ev[j]
Fails(i, j) ==
  LET e == Ev(i, j) pre == Ev(i, j - 1).post IN
  IF e.op = "start" THEN Cl("a mesh cannot be made", e.exc = "") ELSE
  Cl("arrays of the caller and other meshes are left as they are", e.others = Ev(i, 1).others) \cup
  IF e.op \in {"scale", "morph", "pop", "addmark", "popfaces", "derive", "convert", "unmarked", "query", "params", "part", "cells"} /\ e.exc # "" THEN {"refused: " \o e.op} ELSE
  CASE e.op = "scale" -> ScaleFails(pre, e.post, e.num, e.den)
    [] e.op = "morph" -> MorphFails(pre, e.post, e.fn)
    [] e.op = "badmorph" -> Cl("a bad function is accepted", e.exc # "") \cup Kept(pre, e.post, {})
    [] e.op = "pop" -> PopFails(pre, e.post, e.which, e.name, e.ret)
    [] e.op = "addmark" -> AddMarkFails(pre, e.post, e.mark)
    [] e.op = "dropmark" -> DropMarkFails(pre, e.post, e.name, e.exc)
    [] e.op = "addfaces" -> AddFacesFails(pre, e.post, e.kind, e.tab, e.exc)
    [] e.op = "popfaces" -> PopFacesFails(pre, e.post, e.kind)
    [] e.op = "grow" -> Kept(pre, e.post, {"cells"})
    [] e.op = "cells" -> Kept(pre, e.post, {"cells", "ncell"}) \cup Cl("the cells are those given", e.post.cells = e.cells /\ e.post.ncell = Len(e.cells))
    [] e.op = "check" -> CheckFails(pre, e.post, e.exc)
    [] e.op = "params" -> IF e.how = "update" THEN UpdateFails(pre, e.post, e.new)
                          ELSE Kept(pre, e.post, {"params"}) \cup Cl("the parameters are those given", e.post.params = e.new)
    [] e.op = "part" -> Kept(pre, e.post, {"part"}) \cup Cl("the partition is the one given", e.post.part = e.new)
    [] e.op = "query" -> Kept(pre, e.post, {}) \cup Cl("what is read is what is held", e.right)
    [] e.op = "derive" -> Kept(pre, e.post, {"int", "bnd", "mix", "nface"}) \cup Cl("number of faces", e.post.nface = CountFaces(e.post))
                          \cup Cl("faces held before are replaced", e.post.mix = NoTable)
    [] e.op = "convert" -> Kept(pre, e.post, {"marks"}) \cup ConvertFails(pre, e.post)
    [] e.op = "unmarked" -> Kept(pre, e.post, {"marks"}) \cup UnmarkedFails(pre, e.post, e.ret)
    [] OTHER -> {"unknown event"}
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(c, l + 1) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
