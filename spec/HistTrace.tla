----------------------------- MODULE HistTrace -------------------------------
(* Recorded histories: after every operation the value (token) of every object
   of the process; ref gives the value of a term computed in a process of its
   own (term, token).                                                         *)
EXTENDS Hist, TraceLib
VARIABLES c, l, s
Ev(i, j) == Cases[i].ev[j]
Known(i, t) == \E k \in DOMAIN Cases[i].ref : Cases[i].ref[k][1] = t
Value(i, t) == Cases[i].ref[CHOOSE k \in DOMAIN Cases[i].ref : Cases[i].ref[k][1] = t][2]
Fails(i, j, now) ==
  LET e == Ev(i, j) IN
  IF Len(e.obs) # Len(now) THEN {"number of objects"} ELSE
  UNION {IF ~Known(i, now[k].t) THEN {"no reference for " \o now[k].t}
         ELSE IF e.obs[k] = Value(i, now[k].t) THEN {}
         ELSE IF k = e.x \/ (k = Len(now) /\ e.op \notin Changes) THEN {"result depends on what the process did before: " \o e.op}
         ELSE {"an operation changes another object: " \o e.op} : k \in DOMAIN now}
Init == c \in DOMAIN Cases /\ l = 0 /\ s = <<>>
Next == /\ l < Len(Cases[c].ev)
        /\ LET now == After(s, Ev(c, l + 1)) f == Fails(c, l + 1, now) IN
           /\ s' = now
           /\ IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
              ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l, s>>
=============================================================================
