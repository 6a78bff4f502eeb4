------------------------------ MODULE InfoTrace -------------------------------
(* Recorded reports.  Events: mesh (a mesh in memory and what printinfo says), file
   (what a file holds, and what cfdinfo says), secs (ic3brief), grid (vtkbrief), conv
   (--info of a conversion, and the file it made), refuse (a file that cannot be read). *)
EXTENDS InfoRel, TraceLib
VARIABLES c, l
Ev(i, j) == Cases[i].ev[j]
Same(e) == Cl("the same command says something else the second time", e.twice)
Fails(i, j) ==
  LET e == Ev(i, j) IN
  CASE e.op = "mesh" -> IF e.exc # "" THEN {"the report fails"} ELSE
         Cl("the report changes the mesh", e.kept) \cup MeshTold(e.m, e.pts, e.r) \cup Same(e)
    [] e.op = "file" -> Printed(e) \cup (IF e.exc # "" THEN {} ELSE FileTold(e.f, e.r) \cup Same(e)
         \cup (IF e.stats THEN StatsTold(e.f.fields, e.lines) ELSE {}))
    [] e.op = "secs" -> Printed(e) \cup (IF e.exc # "" THEN {} ELSE SecsTold(e.file, e.out) \cup Same(e))
    [] e.op = "grid" -> Printed(e) \cup (IF e.exc # "" THEN {} ELSE GridTold(e.g, e.r) \cup Same(e))
    [] e.op = "conv" -> IF e.exc # "" THEN {"the conversion fails"} ELSE
         Cl("the numbers told are those of the file made", e.r.nnode = Len(e.pts) /\ e.r.ncell = e.ncell)
         \cup Cl("the extent told is that of the file made", AxesTell(e.r.axes, e.pts))
         \cup Cl("data said to be removed, or not found, are those", e.told = Removal(e.asked, e.cell, e.node))
         \cup Cl("the file said to be written is the one made", e.written = e.made)
         \cup Cl("the number of cells of the extrusion", e.total = <<>> \/ e.total = <<e.ncell>>)
    [] e.op = "refuse" -> Cl("a file that cannot be read is reported on", e.exc # "") \cup Cl("files are created or changed", e.same /\ e.new = <<>>)
    [] OTHER -> {"unknown event"}
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(c, l + 1) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
