------------------------------ MODULE CutTrace --------------------------------
(* Readings of incomplete or damaged restart files.
     whole   the complete file                       out: "read" or "raised"
     cuts    prefixes of the file; out: sequence of <<length, outcome>>
             sec: <<start, skip>> of the sections (IC3 2 and 3)
     stop    the writing was stopped by the system at a limit of size (fault)
             or killed at a call: left (size of the file left), outcome of reading
     damage  a damage of GenDamage was done to the file; outcome of reading     *)
EXTENDS TraceLib
VARIABLES c, l
Ev(i, j) == Cases[i].ev[j]
Cl(t, b) == IF b THEN {} ELSE {t}
Range(f) == {f[x] : x \in DOMAIN f}
Cuts(e) == {o[1] : o \in Range(e.out)}
\* points every crash exploration must contain: around the limits of sections, headers and data
Around(s) == {s[1], s[1] + 1, s[1] + 255, s[1] + 256, s[1] + 257, s[1] + s[2] - 1}
Needed(e) == {n \in {0, 1, 4, 7, 8} \cup UNION {Around(s) : s \in Range(e.sec)} : n < e.size}
Fails(i, j) ==
  LET e == Ev(i, j) IN
  CASE e.op = "whole" -> Cl("a complete file is read", e.out = "read")
    [] e.op = "cuts" -> Cl("exploration: all limits of sections are cut", Needed(e) \subseteq Cuts(e) /\ (e.all => Cuts(e) = 0..(e.size - 1)))
                        \cup Cl("a proper prefix of a file is refused", \A o \in Range(e.out) : o[1] < e.size => o[2] = "raised")
    [] e.op = "stop" -> Cl("a stopped writing reports an error", e.wrote = "raised")
                        \cup Cl("the file left by a stopped writing is refused", e.out = "raised")
    [] e.op = "damage" -> Cl("a damaged file is refused", e.out = "raised")
    [] OTHER -> {"unknown event"}
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(c, l + 1) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
