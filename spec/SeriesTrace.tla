------------------------------ MODULE SeriesTrace ------------------------------
(* Recorded readings of series.  A case has the files as they were at any time (files) and
   events; cur names the version of each file of the list (0: there is no such file). *)
EXTENDS SeriesRel, TraceLib
VARIABLES c, l
None == [here |-> FALSE]
Now(i, e) == [k \in DOMAIN e.cur |-> IF e.cur[k] = 0 THEN None ELSE Cases[i].files[e.cur[k]]]
Fails(i, j) == LET e == Cases[i].ev[j] f == Now(i, e) IN
  CASE e.op = "exist" -> ExistFails(f, e.exc, e.ret)
    [] e.op = "check" -> CheckFails(f, e.pos, e.T, e.exc, e.ret)
    [] e.op = "read" -> ReadFails(f, e.filter, e.T, e.exc, e.got)
    [] OTHER -> {"unknown event"}
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(c, l + 1) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
