----------------------------- MODULE ExtrudeTrace ------------------------------
(* Recorded extrusions: extrude (src, arguments, src after, result), derive and
   convert on the result (MeshState), sides: the faces of each mark as node sets,
   as held by the mesh or by the file a writer made of it.                      *)
EXTENDS ExtrudeRel, TraceLib
VARIABLES c, l
Ev(i, j) == Cases[i].ev[j]
Ext(i) == Ev(i, 1)
SetSeq(q) == [k \in DOMAIN q |-> SetOfSeq(q[k])]
Fails(i, j) ==
  LET e == Ev(i, j) IN
  CASE e.op = "extrude" ->
         IF e.exc # "" THEN {"the extrusion fails"} ELSE
         Cl("the plane mesh is left as it is", e.src = e.after)
         \cup Cl("the result has no faces yet", ~HasFaces(e.post))
         \cup ExtrudeFails(e.src, e.planes, e.dir, e.dom, e.post)
    [] e.op = "derive" -> IF e.exc # "" THEN {"faces cannot be derived"} ELSE DeriveFails(Ev(i, j - 1).post, e.post)
    [] e.op = "convert" -> IF e.exc # "" THEN {"marks cannot be converted"} ELSE ConvertFails(Ev(i, j - 1).post, e.post)
    [] e.op = "sides" ->
         IF e.exc # "" THEN Cl("the extruded mesh cannot be written",
                               MarkedTwice(Ext(i).src)
                               \/ \E k \in DOMAIN Ext(i).src.marks : ~HoldsNoCell(Ext(i).src, Ext(i).src.marks[k])) ELSE
         SideFails(Ext(i).src, Ext(i).planes, Ext(i).dom, Range(SetSeq(e.bnd)), e.names, [k \in DOMAIN e.sets |-> SetSeq(e.sets[k])])
    [] OTHER -> {"unknown event"}
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(c, l + 1) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
