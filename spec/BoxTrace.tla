-------------------------------- MODULE BoxTrace -------------------------------
(* Recorded histories of calls on timers, cached functions and data sets.
   The state is the specification's; each event gives what the call answered and what is seen afterwards.
     timer   e.t, e.op, e.d (time passed before), e.out, e.rep (numbers reported), e.seen (elapsed of each timer)
     memo    e.f, e.a, e.res, e.n (calls of the functions), e.hits, e.misses, e.size (by function)
     data    e.op with its arguments, e.exc, e.sets (all data sets as seen), e.arg, e.argafter (arguments before and after)  *)
EXTENDS TraceLib, BoxRel
VARIABLES c, l, s
Start(case) == CASE case.kind = "timer" -> [now |-> 0, t |-> [k \in 1..case.nt |-> Timer0]]
                 [] case.kind = "memo" -> [m |-> Memo0(1..case.nf)]
                 [] OTHER -> [sets |-> <<>>, lists |-> <<>>]
\* ---- timer
TimerNext(st, e) == LET now == st.now + e.d r == TStep(st.t[e.t], e.op, now) IN [now |-> now, t |-> [st.t EXCEPT ![e.t] = r.st]]
TimerFails(st, e) ==
  LET now == st.now + e.d r == TStep(st.t[e.t], e.op, now) n == TimerNext(st, e) IN
  BCl("a timer refuses to start twice or to pause when it is not running, and nothing else", e.out = r.out)
  \cup BCl("a stop reports the time between each start and the following pause", (r.out = "ok" /\ e.op \in {"stop", "exit", "raise"}) => r.rep \in Rgb(e.rep))
  \cup BCl("a timer accumulates exactly the time between start and pause", e.seen = [k \in DOMAIN n.t |-> n.t[k].acc])
\* ---- cache
MemoNext(st, e, kinds) == [m |-> MCall(st.m, e.f, e.a, kinds).m]
MemoFails(st, e, kinds) ==
  LET r == MCall(st.m, e.f, e.a, kinds) IN
  BCl("a cached function returns what its first call returned", e.res = r.v)
  \cup BCl("a cached function is called once for each argument tuple", e.n = r.m.n)
  \cup BCl("hits and misses are counted exactly", e.hits = r.m.hits /\ e.misses = r.m.misses)
  \cup BCl("the cache holds one value for each argument tuple", e.size = [f \in DOMAIN e.size |-> Cardinality({x \in DOMAIN r.m.val : x[1] = f})])
\* ---- data sets
Empty(e) == [items |-> <<>>, trep |-> e.trep, xrep |-> e.xrep, ndof |-> e.ndof, time |-> <<>>, geo |-> <<>>]
Derived(d, e, t) == [items |-> e.new, trep |-> t, xrep |-> d.xrep, ndof |-> d.ndof, time |-> <<>>, geo |-> <<>>]
GivesSet(st, e) == e.op = "new" \/ e.op \in {"spectrum", "spectrogram"}
CanDerive(st, e) == Derivable(st.sets[e.d]) /\ Rgb(Asked(st.sets[e.d], e.filter)) \subseteq Rgb(NamesIn(st.sets[e.d].items))
Refused(st, e) ==
  CASE e.op = "new" -> ~Allowed(e.xrep, e.ndof, e.trep)
    [] e.op \in {"pop", "get"} -> ~HasName(st.sets[e.d], e.name)
    [] e.op \in {"spectrum", "spectrogram"} -> ~CanDerive(st, e)
    [] e.op = "dtstats" -> ~Derivable(st.sets[e.d])
    [] OTHER -> FALSE
SetsAfter(st, e) ==
  LET U(f) == [st.sets EXCEPT ![e.d] = f] d == st.sets[e.d] IN
  IF Refused(st, e) THEN st.sets ELSE
  CASE e.op = "new" -> Append(st.sets, Empty(e))
    [] e.op = "add" -> U([d EXCEPT !.items = Put(@, e.name, e.val), !.time = IF e.time = "none" THEN @ ELSE <<e.time>>])
    [] e.op = "pop" -> U([d EXCEPT !.items = Drop(@, e.name)])
    [] e.op = "setdata" -> U([d EXCEPT !.items = e.items])
    [] e.op \in {"nodes", "mesh"} -> LET RECURSIVE P(_, _) P(g, k) == IF k > Len(e.geo) THEN g ELSE P(Put(g, e.geo[k][1], e.geo[k][2]), k + 1) IN U([d EXCEPT !.geo = P(@, 1)])
    [] e.op = "spectrum" -> Append(st.sets, Derived(d, e, "spectrum"))
    [] e.op = "spectrogram" -> Append(st.sets, Derived(d, e, "spectrogram"))
    [] OTHER -> st.sets
ListsAfter(st, e) ==
  CASE e.op = "newlist" -> Append(st.lists, <<>>)
    [] e.op = "addlist" -> [st.lists EXCEPT ![e.d] = Append(@, [items |-> e.items, time |-> IF e.time = "none" THEN <<>> ELSE <<e.time>>])]
    [] OTHER -> st.lists
DataNext(st, e) == [sets |-> SetsAfter(st, e), lists |-> ListsAfter(st, e)]
SameItems(a, b) == Rgb(a) = Rgb(b) /\ Len(a) = Len(b)
SameSet(a, b) == /\ SameItems(a.items, b.items) /\ a.trep = b.trep /\ a.xrep = b.xrep /\ a.ndof = b.ndof /\ SameItems(a.geo, b.geo)
TimeSeen(a, b) == a.time = b.time \/ b.time = <<"unseen">>
DataFails(st, e) ==
  LET ref == Refused(st, e) IN
  BCl("arguments given to a data set are not changed", e.arg = e.argafter)
  \cup BCl("a call that cannot be answered is refused, and no other", (e.exc # "") <=> ref)
  \cup (IF (e.exc # "") # ref THEN {} ELSE
    BCl("a data set holds every item added and only those", Len(e.sets) = Len(SetsAfter(st, e)) /\ \A k \in DOMAIN e.sets : SameSet(SetsAfter(st, e)[k], e.sets[k]))
    \cup BCl("a data set keeps its time, zero included", Len(e.sets) = Len(SetsAfter(st, e)) => \A k \in DOMAIN e.sets : TimeSeen(SetsAfter(st, e)[k], e.sets[k]))
    \cup (IF ref THEN {} ELSE
      CASE e.op = "get" -> BCl("an item is got as it was added", <<e.name, e.val>> \in Rgb(st.sets[e.d].items))
        [] e.op = "pop" -> BCl("an item is got as it was added", <<e.name, e.val>> \in Rgb(st.sets[e.d].items))
        [] e.op = "spectrum" -> BCl("a derived set holds the fields asked for", Rgb(NamesIn(e.new)) = {"freq"} \cup Rgb(Asked(st.sets[e.d], e.filter)))
                                \cup BCl("derived data have one value for each frequency", \A k \in DOMAIN e.shape : e.shape[k] = <<e.nsel>>)
                                \cup BCl("a derived item comes from the field of its name", \A k \in DOMAIN e.from : e.from[k][1] \in Rgb(e.from[k][2]))
        [] e.op = "spectrogram" -> BCl("a derived set holds the fields asked for", Rgb(NamesIn(e.new)) = {"freq", "time"} \cup Rgb(Asked(st.sets[e.d], e.filter)))
                                   \cup BCl("derived data have one value for each frequency and time",
                                        \A k \in DOMAIN e.new : e.new[k][1] \notin {"freq", "time"} => e.shape[k] = <<e.nt, e.nf>>)
        [] e.op = "dump" -> LET want == st.lists[e.d] IN
             BCl("a list of data sets holds every set in order", Len(e.groups) = Len(want))
             \cup BCl("a set of a list holds every item and its time, zero included",
                  \A k \in DOMAIN want : k \in DOMAIN e.groups => SameItems(e.groups[k].items, want[k].items) /\ e.groups[k].time = want[k].time)
        [] OTHER -> {}))
\* ---- all
Fails(i, j, st) == LET e == Cases[i].ev[j] k == Cases[i].kind IN
  CASE k = "timer" -> TimerFails(st, e) [] k = "memo" -> MemoFails(st, e, Cases[i].kinds) [] OTHER -> DataFails(st, e)
After(i, j, st) == LET e == Cases[i].ev[j] k == Cases[i].kind IN
  CASE k = "timer" -> TimerNext(st, e) [] k = "memo" -> MemoNext(st, e, Cases[i].kinds) [] OTHER -> DataNext(st, e)
Init == c \in DOMAIN Cases /\ l = 0 /\ s = Start(Cases[c])
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(c, l + 1, s) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ s' = s /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ s' = After(c, l + 1, s) /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l, s>>
=============================================================================
