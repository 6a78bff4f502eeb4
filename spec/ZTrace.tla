--------------------------------- MODULE ZTrace ---------------------------------
(* Recorded averages and extractions.  same: the grid itself is as it was. *)
EXTENDS ZRel, TraceLib
VARIABLES c, l
Fails(i, j) == LET a == Cases[i] e == a.ev[j] IN
  Cl("the grid is left as it is", e.same) \cup
  CASE e.op = "average" -> ZFails(a.cells, a.fields, e.gen, e.has, e.sel, a.cos, a.sin, e.exc, e.res)
    [] e.op = "extract" -> ExtractFails(a.cells, e.ids, e.exc, e.res)
    [] OTHER -> {"unknown event"}
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(c, l + 1) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
