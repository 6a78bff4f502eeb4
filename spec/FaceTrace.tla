----------------------------- MODULE FaceTrace ------------------------------
(* Validation of recorded face derivations (property C01). Events:
   derive : cells -> ifaces, if2c, bfaces, bf2c, mfaces, mf2c                *)
EXTENDS FaceRel, TraceLib
VARIABLES c, l
Ev(i, j) == Cases[i].ev[j]
Fails(e) ==
  IF e.exc # "" THEN {"face derivation fails on a valid mesh"} ELSE
  LET f == FaceFails(e.cells, e.ifaces, e.if2c, e.bfaces, e.bf2c, e.dim)
  IN IF f # {} THEN f ELSE MergedFails(e.ifaces, e.if2c, e.bfaces, e.bf2c, e.mfaces, e.mf2c)
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(Ev(c, l + 1)) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
