-------------------------------- MODULE ProbeRel -------------------------------
(* Where the values of a probe variable come from.  The origin of a value is a term:
     "P@2"                the second content of the file of P
     "Asound(P@2,RHO@1)"  computed from the values of these origins                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Deps   \* variable -> sequence of the variables it is computed from
PCl(t, b) == IF b THEN {} ELSE {t}
Rgp(s) == {s[k] : k \in DOMAIN s}
Computable == DOMAIN Deps
FileTerm(v, n) == v \o "@" \o ToString(n)
RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o Join(Tail(s))
CompTerm(v, h) == v \o "(" \o Join([k \in DOMAIN Deps[v] |-> h[Deps[v][k]]]) \o ")"
\* files: variable -> version of its file;  h: variable held -> term
RECURSIVE Possible(_, _, _)
Possible(held, files, v) == \/ v \in held \/ v \in DOMAIN files
                            \/ v \in Computable /\ \A k \in DOMAIN Deps[v] : Possible(held, files, Deps[v][k])
\* variables that may have to be got to answer a request
RECURSIVE Need(_, _, _)
Need(held, files, v) == IF v \in held THEN {} ELSE IF v \in DOMAIN files \/ v \notin Computable THEN {v}
                        ELSE {v} \cup UNION {Need(held, files, Deps[v][k]) : k \in DOMAIN Deps[v]}
Origin(h, files, v) == IF v \in DOMAIN files THEN FileTerm(v, files[v]) ELSE CompTerm(v, h)
\* h2 is a right state after a request of v in state h, successful or not
RightNew(h, h2, files, v) ==
  /\ DOMAIN h \subseteq DOMAIN h2
  /\ (DOMAIN h2 \ DOMAIN h) \subseteq Need(DOMAIN h, files, v)
  /\ \A w \in DOMAIN h2 \ DOMAIN h : /\ (w \in DOMAIN files \/ (w \in Computable /\ Rgp(Deps[w]) \subseteq DOMAIN h2))
                                     /\ h2[w] = Origin(h2, files, w)
=============================================================================
