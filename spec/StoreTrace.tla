----------------------------- MODULE StoreTrace --------------------------------
(* Commands run in a scratch tree, with the whole tree before and after each:
   before/after: sequences of <<path, kind, digest>>; kind: file, dir, link.
     env    files put by somebody else
     conv   dest, stem, suf: requested folder and name; ovw, xmf: options
            missing: the requested folder does not exist
            ret: the returned name (a path of the tree); exc; what: content found
                 in the files written since (by their time stamps), <<path, format>>            *)
EXTENDS TraceLib
VARIABLES c, l
Ev(i, j) == Cases[i].ev[j]
Cl(t, b) == IF b THEN {} ELSE {t}
Range(f) == {f[x] : x \in DOMAIN f}
Paths(s) == {e[1] : e \in Range(s)}
Slash(d, n) == IF d = "" THEN n ELSE d \o "/" \o n
Num(stem, k) == IF k = 0 THEN stem ELSE stem \o "(" \o ToString(k) \o ")"
FirstFree(d, stem, suf, names) ==
  CHOOSE k \in 0..(Cardinality(names) + 1) :
     /\ Slash(d, Num(stem, k) \o suf) \notin names
     /\ \A m \in 0..(k - 1) : Slash(d, Num(stem, m) \o suf) \in names
\* number of the file and of its companion
K(e) == IF e.ovw THEN 0 ELSE FirstFree(e.dest, e.stem, e.suf, Paths(e.before))
Main(e) == Slash(e.dest, Num(e.stem, K(e)) \o e.suf)
Comp(e) == LET s == Num(e.stem, K(e)) IN
           Slash(e.dest, Num(s, IF e.ovw THEN 0 ELSE FirstFree(e.dest, s, ".xmf", Paths(e.before))) \o ".xmf")
Targets(e) == {Main(e)} \cup (IF e.xmf THEN {Comp(e)} ELSE {})
IsDir(e, p) == \E x \in Range(e.before) : x[1] = p /\ x[2] = "dir"
Impossible(e) == e.missing \/ (e.ovw /\ \E p \in Targets(e) : IsDir(e, p))
Changed(e) == {x \in Range(e.before) : x \notin Range(e.after)}
New(e) == {x \in Range(e.after) : x[1] \notin Paths(e.before)}
Fails(i, j) ==
  LET e == Ev(i, j) IN
  Cl("continuity: nothing happens between the commands", j > 1 => Range(e.before) = Range(Ev(i, j - 1).after))
  \cup CASE e.op = "env" -> {}
    [] e.op = "conv" /\ Impossible(e) ->
         Cl("a command that cannot write ends in an error", e.exc # "")
         \cup Cl("nothing that exists is changed", \A x \in Changed(e) : e.ovw /\ x[1] \in Targets(e) /\ x[2] = "file")
    [] e.op = "conv" ->
         Cl("the command succeeds", e.exc = "")
         \cup Cl("nothing that exists is changed", \A x \in Changed(e) : e.ovw /\ x[1] \in Targets(e))
         \cup Cl("only the announced files appear", {x[1] : x \in New(e)} \subseteq Targets(e))
         \cup Cl("the file is written under the first free number", \A p \in Targets(e) : \E x \in Range(e.after) : x[1] = p /\ x[2] = "file")
         \cup Cl("the named file is replaced", e.ovw => Targets(e) \subseteq {w[1] : w \in Range(e.what)})
         \cup Cl("the returned name is that of the file", e.ret = Main(e))
         \cup Cl("the file has the format of the command",
                 /\ \E w \in Range(e.what) : w[1] = Main(e) /\ w[2] = e.fmt
                 /\ e.xmf => \E w \in Range(e.what) : w[1] = Comp(e) /\ w[2] = "xmf")
    [] OTHER -> {"unknown event"}
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(c, l + 1) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
