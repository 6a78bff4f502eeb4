------------------------------- MODULE HoldTrace -------------------------------
(* Recorded histories of readers.  After every operation all readers (rs) and all meshes (ms)
   are looked at; the machine of HoldRel says which file each of them must agree with.       *)
EXTENDS HoldRel, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, st
Verdict(kind, id, n, f) == IF kind = "DONE" THEN PrintT(<<"DONE", id, n>>) ELSE PrintT(<<"FAIL", id, n, f>>)
Files == Cases[c].files
Fails(s, e) ==
  IF e.exc # "" THEN {"the operation fails: " \o e.op}
  ELSE UNION {IF s.rd[k].f = 0 THEN {} ELSE Holds(Files[s.rd[k].f], e.rs[k]) : k \in DOMAIN s.rd}
       \cup UNION {Kept(Files[s.ms[k].f], s.ms[k], e.ms[k]) : k \in DOMAIN s.ms}
Init == c \in DOMAIN Cases /\ l = 0 /\ st = Start(Cases[c].cur)
Next == /\ l < Len(Cases[c].ev)
        /\ LET e == Cases[c].ev[l + 1]
               s == Op(st, e)
               f == Fails(s, e) IN
           /\ st' = s
           /\ IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
              ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
