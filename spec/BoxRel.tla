-------------------------------- MODULE BoxRel ---------------------------------
(* Contracts of the timer, the cache of results and the data sets: what each call gives and leaves *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
BCl(t, b) == IF b THEN {} ELSE {t}
Rgb(s) == {s[k] : k \in DOMAIN s}
\* ---- timer: run, since (time of the start), acc (sum of the closed intervals), within (a with-block is open)
Timer0 == [run |-> FALSE, since |-> 0, acc |-> 0, within |-> FALSE]
Res(st, out, rep) == [st |-> st, out |-> out, rep |-> rep]
TStart(t, now) == IF t.run THEN Res(t, "refused", 0) ELSE Res([t EXCEPT !.run = TRUE, !.since = now], "ok", 0)
TPause(t, now) == IF ~t.run THEN Res(t, "refused", 0) ELSE Res([t EXCEPT !.run = FALSE, !.acc = @ + now - t.since], "ok", 0)
TStop(t, now) == IF ~t.run THEN Res(t, "refused", 0)
                 ELSE Res([t EXCEPT !.run = FALSE, !.acc = 0], "ok", t.acc + now - t.since)
TStep(t, op, now) ==
  CASE op = "start" -> TStart(t, now)
    [] op = "pause" -> TPause(t, now)
    [] op = "stop" -> TStop(t, now)
    [] op = "reset" -> Res([t EXCEPT !.run = FALSE, !.acc = 0], "ok", 0)
    [] op = "enter" -> LET r == TStart(t, now) IN Res([r.st EXCEPT !.within = (r.out = "ok") \/ t.within], r.out, 0)
    [] op \in {"exit", "raise"} -> LET r == TStop(t, now) IN Res([r.st EXCEPT !.within = FALSE], r.out, r.rep)
\* ---- cache: m.val[<<f, a>>] number of the call of the function that gave the value; n: calls made; hits, misses by function
\* kind of an argument: value | none (all its values are the same) | raise | once (raises the first time) | rec (calls other arguments)
Subs(a, kind) == IF kind[a] = "rec" THEN <<a - 1, a - 2>> ELSE <<>>
Memo0(F) == [val |-> <<>>, n |-> 0, hits |-> [f \in F |-> 0], misses |-> [f \in F |-> 0], seen |-> {}]
RECURSIVE MCall(_, _, _, _)
\* the state after the call and its value: <<0, "ok">> for a value of kind none, <<number of the call, "ok">>, <<0, "raised">>
MCall(m, f, a, kind) ==
  IF <<f, a>> \in DOMAIN m.val THEN [m |-> [m EXCEPT !.hits[f] = @ + 1], v |-> <<m.val[<<f, a>>], "ok">>]
  ELSE LET m1 == [m EXCEPT !.misses[f] = @ + 1, !.n = @ + 1, !.seen = @ \cup {<<f, a>>}]
           id == IF kind[a] = "none" THEN 0 ELSE m1.n
           fails == kind[a] = "raise" \/ (kind[a] = "once" /\ <<f, a>> \notin m.seen)
           s == Subs(a, kind)
           m2 == IF s = <<>> THEN m1 ELSE LET x == MCall(m1, f, s[1], kind).m IN MCall(x, f, s[2], kind).m
       IN IF fails THEN [m |-> m2, v |-> <<0, "raised">>]
          ELSE [m |-> [m2 EXCEPT !.val = (<<f, a>> :> id) @@ @], v |-> <<id, "ok">>]
\* ---- data sets: items in the order of their names' first addition
HasName(d, x) == \E k \in DOMAIN d.items : d.items[k][1] = x
Put(items, x, v) == IF \E k \in DOMAIN items : items[k][1] = x
                    THEN [k \in DOMAIN items |-> IF items[k][1] = x THEN <<x, v>> ELSE items[k]] ELSE Append(items, <<x, v>>)
Drop(items, x) == LET Keep(it) == it[1] # x IN SelectSeq(items, Keep)
NamesIn(items) == [k \in DOMAIN items |-> items[k][1]]
NoTime(s) == LET Keep(x) == x # "time" IN SelectSeq(s, Keep)
\* fields of a derived data set: those asked for (all if none is), without time, in order, once
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE LET p == Uniq(SubSeq(s, 1, Len(s) - 1)) IN IF s[Len(s)] \in Rgb(p) THEN p ELSE Append(p, s[Len(s)])
Asked(d, filter) == NoTime(IF filter = <<>> THEN NamesIn(d.items) ELSE Uniq(filter))
Allowed(xrep, ndof, trep) == /\ xrep \in {"nodal", "cellaverage", "spectralcell"} /\ trep \in {"instant", "timeevol", "spectrum", "spectrogram"}
                             /\ (ndof = 1 \/ xrep = "spectralcell")
Derivable(d) == d.trep = "timeevol" /\ HasName(d, "time")
=============================================================================
