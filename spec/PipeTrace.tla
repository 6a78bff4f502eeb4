------------------------------- MODULE PipeTrace -------------------------------
(* Recorded conversions.  Events: input (the content of the file, known by construction
   or parsed apart, and the mesh read from it); extrude (the same mesh extruded by the
   library, coordinates as integers); conv (a command and what it wrote).             *)
EXTENDS PipeRel, TraceLib
VARIABLES c, l
Ev(i, j) == Cases[i].ev[j]
Fails(i, j) ==
  LET e == Ev(i, j) IN
  CASE e.op = "source" -> SourceFails(e.src, e.m, e.exc)
    [] e.op = "file" -> IF e.from > 0 THEN ReadFails(Ev(i, e.from).out, e.m, e.exc) ELSE ReadFails(e.file, e.m, e.exc)
    [] e.op = "extrude" -> IF e.exc # "" THEN {"the mesh cannot be extruded"} ELSE
                           ExtrudeFails([Ev(i, e.from).m EXCEPT !.pts = e.pts], [k \in 1..(e.nz + 1) |-> 8 * (k - 1)], <<0, 0, 1>>, "fluid", e.m)
    [] e.op = "conv" -> ConvFails(Ev(i, e.from).m, e.o, e.mul, e.faces, e.exc, e.out, e.tree)
    [] e.op = "look" -> Cl("a command that prints fails", e.exc = "") \cup Cl("the files that were there are unchanged", e.tree.same /\ e.tree.new = <<>>)
    [] OTHER -> {"unknown event"}
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(c, l + 1) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
