------------------------------ MODULE FormatTrace ------------------------------
(* Recorded commands.  Case: hist (registrations), ev:
     use    cmd (info | ic3v2 | ic3v3 | cube), fmt, ext, exc, readers used, source of the mesh written, writer used, new files
     known  a real file of the format fmt: exc, want and got (facts of the mesh) *)
EXTENDS TraceLib, FormatRel
VARIABLES c, l
Cl(t, b) == IF b THEN {} ELSE {t}
Want(i, e) == Used(After(Base, Cases[i].hist), e.fmt, e.ext, IF e.cmd = "cube" THEN "write" ELSE "read")
ReaderNames(i) == LET r == After(Base, Cases[i].hist) IN {n \in DOMAIN r : r[n].reader # ""}
UseFails(i, e) ==
  LET u == Want(i, e)
      mayrefuse == e.cmd = "cube" /\ e.fmt # "" /\ e.fmt \notin ReaderNames(i)   \* --fmt offers the formats that can be read
  IN IF u = "" THEN Cl("a command without a usable format is refused", e.exc # "")
                    \cup Cl("a refused command writes no file", e.files = 0)
                    \cup Cl("a refused command uses no class", e.used = <<>> /\ e.writer = "")
     ELSE IF e.exc # "" /\ mayrefuse THEN Cl("a refused command writes no file", e.files = 0)
     ELSE Cl("a format given by name or extension is accepted", e.exc = "")
          \cup (IF e.exc # "" THEN {} ELSE
             IF e.cmd = "cube" THEN Cl("the registered writer is used", e.writer = u) \cup Cl("one file is written", e.files = 1)
             ELSE Cl("the registered reader is used, and no other", e.used = <<u>>)
                  \cup Cl("nothing but the conversion is written", e.files = (IF e.cmd = "info" THEN 0 ELSE 1))
                  \cup Cl("the mesh of the reader is written", e.cmd = "info" \/ e.source = u))
KnownFails(e) == Cl("the version of the file is recognised", e.exc = "") \cup Cl("the mesh is that of the file", e.exc # "" \/ e.got = e.want)
Fails(i, j) == LET e == Cases[i].ev[j] IN IF e.op = "use" THEN UseFails(i, e) ELSE KnownFails(e)
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(c, l + 1) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
