------------------------------- MODULE Observed -------------------------------
(* Whatever was done, objects and files can be observed: numbers, rows and
   names agree enough to be read, files can be decoded.  e.exc tells why not.  *)
EXTENDS Naturals, Sequences, TraceLib
VARIABLES c, l
Fails(e) == IF e.exc = "" THEN {} ELSE {"results cannot be observed: " \o e.exc}
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(Cases[c].ev[l + 1]) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
