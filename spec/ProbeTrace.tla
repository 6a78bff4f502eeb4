-------------------------------- MODULE ProbeTrace -----------------------------
(* Recorded histories of requests on probe data.
     put / remove   e.var (and the version of its content)
     request        e.var, e.exc, e.named (variables named by the error), e.held: <<variable, content, terms whose values these are>>,
                    e.time: content of time ("" if none), e.timeof: files whose times these are
     map            the command: e.var, e.axis, e.exc, e.drawn: terms of the values drawn, e.drawnaxis, e.file (a figure was written where it must) *)
EXTENDS TraceLib
VARIABLES c, l, s
DepsFull == ("Asound" :> <<"P", "RHO">>) @@ ("S" :> <<"P", "RHO">>) @@ ("Mach" :> <<"U", "Asound">>) @@ ("U" :> <<"U-X", "U-Y", "U-Z">>)
            @@ ("INVX+" :> <<"U-X", "Asound">>) @@ ("INVX-" :> <<"U-X", "Asound">>)
INSTANCE ProbeRel WITH Deps <- DepsFull
Start(case) == [files |-> [v \in {} |-> 0], put |-> 0, h |-> [v \in {} |-> ""], d |-> [v \in {} |-> ""], time |-> ""]
VarsOf(e) == {e.held[k][1] : k \in DOMAIN e.held}
Row(e, v) == e.held[CHOOSE k \in DOMAIN e.held : e.held[k][1] = v]
\* the terms of what is held after e: those expected
RECURSIVE Terms(_, _, _, _)
Terms(h, files, held2, v) ==
  IF v \in DOMAIN h THEN h[v]
  ELSE IF v \in DOMAIN files THEN FileTerm(v, files[v])
  ELSE IF v \in Computable /\ Rgp(DepsFull[v]) \subseteq held2 THEN CompTerm(v, [w \in Rgp(DepsFull[v]) |-> Terms(h, files, held2, w)]) ELSE "nothing"
HeldAfter(st, e) == [v \in VarsOf(e) |-> Terms(st.h, st.files, VarsOf(e), v)]
Next1(st, e) ==
  CASE e.op = "put" -> [st EXCEPT !.files = (e.var :> e.version) @@ @]
    [] e.op = "remove" -> [st EXCEPT !.files = [v \in DOMAIN @ \ {e.var} |-> @[v]]]
    [] e.op = "request" -> [st EXCEPT !.h = HeldAfter(st, e), !.d = [v \in VarsOf(e) |-> Row(e, v)[2]], !.time = e.time]
    [] OTHER -> st
RequestFails(st, e) ==
  LET V == DOMAIN st.h can == Possible(V, st.files, e.var) h2 == HeldAfter(st, e) new == VarsOf(e) \ V IN
  PCl("a request is answered when it can be, and refused otherwise", (e.exc = "") <=> can)
  \cup PCl("the error names a variable that is missing", e.exc # "" => \E w \in Need(V, st.files, e.var) : ~Possible(V, st.files, w) /\ w \in Rgp(e.named))
  \cup PCl("variables held are never lost or changed", V \subseteq VarsOf(e) /\ \A v \in V : v \in VarsOf(e) => Row(e, v)[2] = st.d[v])
  \cup PCl("the requested variable is held", e.exc = "" => e.var \in VarsOf(e))
  \cup PCl("only what is needed is got", new \subseteq Need(V, st.files, e.var))
  \cup PCl("values are those of the file if there is one, else computed from their true dependencies", \A v \in new : h2[v] \in Rgp(Row(e, v)[3]))
  \cup PCl("time is kept, and comes from a file that was read", IF st.time # "" THEN e.time = st.time
           ELSE LET src == {v \in new : v \in DOMAIN st.files /\ v \in Rgp(e.timed)} IN
                IF e.var = "time" /\ "time" \in DOMAIN st.files THEN TRUE ELSE IF src = {} THEN e.time = "" ELSE e.time # "" /\ \E v \in src : v \in Rgp(e.timeof))
\* the command starts with nothing held
MapTerm(st, v) == LET RECURSIVE T(_) T(w) == IF w \in DOMAIN st.files THEN FileTerm(w, st.files[w])
                                            ELSE CompTerm(w, [x \in Rgp(DepsFull[w]) |-> T(x)]) IN T(v)
MapFails(st, e) ==
  LET can == Possible({}, st.files, e.var) /\ Possible({}, st.files, e.axis) IN
  PCl("a map is drawn when it can be, and refused otherwise", (e.exc = "") <=> can)
  \cup (IF e.exc # "" \/ ~can THEN {} ELSE
        PCl("the map is that of the requested variable along the requested axis", (e.kind = "freq" \/ MapTerm(st, e.var) \in Rgp(e.drawn)) /\ MapTerm(st, e.axis) \in Rgp(e.drawnaxis))
        \cup PCl("the map is saved under the name of its variable", e.file))
Fails(i, j, st) ==
  LET e == Cases[i].ev[j] IN
  CASE e.op = "request" -> RequestFails(st, e) [] e.op = "map" -> MapFails(st, e) [] OTHER -> {}
Init == c \in DOMAIN Cases /\ l = 0 /\ s = Start(Cases[c])
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(c, l + 1, s) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ s' = s /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ s' = Next1(s, Cases[c].ev[l + 1]) /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l, s>>
=============================================================================
