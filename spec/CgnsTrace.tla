------------------------------- MODULE CgnsTrace -------------------------------
(* Recorded readings of CGNS files.  Case: zones (contents), ev: readings;
   e.zone: number of the zone that must be read, 0 when it must be refused    *)
EXTENDS TraceLib, CgnsRel
VARIABLES c, l
Fails(i, j) ==
  LET e == Cases[i].ev[j] IN
  IF e.zone = 0 THEN ZCl("a zone that is not there, or not chosen, is refused", e.exc # "")
  ELSE IF e.exc # "" THEN {"a valid zone is read"}
  ELSE ReadZoneFails(Cases[i].zones[e.zone], e.m)
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(c, l + 1) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
