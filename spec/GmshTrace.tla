------------------------------- MODULE GmshTrace -------------------------------
(* Recorded readings of GMSH files.  Case: f (the content), ev: readings
   (op = "read", m) and comparisons of two readings (op = "same", a, b: events) *)
EXTENDS TraceLib, GmshRel
VARIABLES c, l
Fails(i, j) ==
  LET e == Cases[i].ev[j] IN
  IF e.exc # "" THEN {"a valid file is read"}
  ELSE IF e.op = "read" THEN ReadGmshFails(Cases[i].f, e.m)
  ELSE SameMesh(Cases[i].ev[e.a].m, Cases[i].ev[e.b].m)
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(c, l + 1) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
