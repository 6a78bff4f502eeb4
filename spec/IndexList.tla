------------------------------ MODULE IndexList -------------------------------
(* Design of index lists and numbered connectivities.
   An index list is held as a range (first, last included) or as a list; every
   operation acts on that representation.  abs is the sequence it denotes.
   A connectivity is held as blocks by element type, each with an index list
   that may be shared with other objects; elems is what it denotes.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Lo, Hi, MaxLen, MaxObj, MaxCon, MaxOps
VARIABLES obj, abs,      \* index lists and the sequences they denote
          con, elems,    \* connectivities: sequence of <<type, rep, tokens>>; sets of <<number, type, token>>
          fresh, n
vars == <<obj, abs, con, elems, fresh, n>>
Seqs == UNION {[1..k -> Lo..Hi] : k \in 0..MaxLen}
R(a, b) == [t |-> "range", a |-> a, b |-> b, l |-> <<>>]
L(s) == [t |-> "list", a |-> 0, b |-> 0, l |-> s]
Run(a, k) == [i \in 1..k |-> a + i - 1]
Denote(r) == IF r.t = "range" THEN Run(r.a, r.b - r.a + 1) ELSE r.l
Plus(s, k) == [i \in DOMAIN s |-> s[i] + k]
IsRun(s) == \A i \in DOMAIN s : s[i] = s[1] + i - 1
ShiftRep(r, k) == IF r.t = "range" THEN R(r.a + k, r.b + k) ELSE L(Plus(r.l, k))
Compressed(r) == IF r.t = "list" /\ Len(r.l) > 0 /\ IsRun(r.l) THEN R(r.l[1], r.l[Len(r.l)]) ELSE r
Step == n < MaxOps /\ n' = n + 1
New(r, s) == obj' = Append(obj, r) /\ abs' = Append(abs, s)
NoCon == UNCHANGED <<con, elems, fresh>>
NoObj == UNCHANGED <<obj, abs>>
Init == obj = <<>> /\ abs = <<>> /\ con = <<>> /\ elems = <<>> /\ fresh = 0 /\ n = 0
NewRange == Step /\ Len(obj) < MaxObj /\ NoCon /\ \E a \in Lo..Hi, k \in 0..MaxLen : New(R(a, a + k - 1), Run(a, k))
NewList == Step /\ Len(obj) < MaxObj /\ NoCon /\ \E s \in Seqs : New(L(s), s)
Shift == Step /\ Len(obj) < MaxObj /\ NoCon /\ \E o \in DOMAIN obj, k \in {-1, 2} : New(ShiftRep(obj[o], k), Plus(abs[o], k))
Concat == Step /\ Len(obj) < MaxObj /\ NoCon /\ \E o, p \in DOMAIN obj : New(L(Denote(obj[o]) \o Denote(obj[p])), abs[o] \o abs[p])
AppendTo == Step /\ NoCon /\ \E o \in DOMAIN obj, s \in Seqs :
   Len(abs[o]) + Len(s) <= MaxLen /\ obj' = [obj EXCEPT ![o] = L(Denote(@) \o s)] /\ abs' = [abs EXCEPT ![o] = @ \o s]
Compress == Step /\ NoCon /\ \E o \in DOMAIN obj : obj' = [obj EXCEPT ![o] = Compressed(@)] /\ UNCHANGED abs
\* ---- connectivities
Types == {"tri3", "quad4"}
NEl(c) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + Len(c[k][3]) IN S(Len(c))
Tok(k) == [i \in 1..k |-> fresh + i]
Pairs(s, t, q) == {<<s[i], t, q[i]>> : i \in DOMAIN s}
BlockOf(c, t) == {k \in DOMAIN c : c[k][1] = t}
WithBlock(c, t, r, q) ==
  IF BlockOf(c, t) = {} THEN Append(c, <<t, r, q>>)
  ELSE LET k == CHOOSE x \in BlockOf(c, t) : TRUE IN [c EXCEPT ![k] = <<t, L(Denote(@[2]) \o Denote(r)), @[3] \o q>>]
NewCon == Step /\ Len(con) < MaxCon /\ NoObj /\ con' = Append(con, <<>>) /\ elems' = Append(elems, {}) /\ UNCHANGED fresh
AddDefault == Step /\ NoObj /\ \E c \in DOMAIN con, t \in Types, k \in 0..2 :
   LET r == R(NEl(con[c]), NEl(con[c]) + k - 1) q == Tok(k) IN
   /\ con' = [con EXCEPT ![c] = WithBlock(@, t, r, q)]
   /\ elems' = [elems EXCEPT ![c] = @ \cup Pairs(Run(NEl(con[c]), k), t, q)] /\ fresh' = fresh + k
AddNumbered == Step /\ NoObj /\ \E c \in DOMAIN con, t \in Types, o \in DOMAIN obj :
   LET q == Tok(Len(abs[o])) IN
   /\ con' = [con EXCEPT ![c] = WithBlock(@, t, obj[o], q)]
   /\ elems' = [elems EXCEPT ![c] = @ \cup Pairs(abs[o], t, q)] /\ fresh' = fresh + Len(q)
Up(c, t, k) == {<<e[1] + k, e[2], e[3]>> : e \in {x \in c : x[2] = t}}
UpAll(c, k) == {<<e[1] + k, e[2], e[3]>> : e \in c}
RECURSIVE MergeBlocks(_, _, _)
MergeBlocks(acc, c, k) == IF c = <<>> THEN acc ELSE MergeBlocks(WithBlock(acc, c[1][1], ShiftRep(c[1][2], k), c[1][3]), Tail(c), k)
Merge == Step /\ Len(con) < MaxCon /\ NoObj /\ \E a, b, c \in DOMAIN con :
   LET k1 == NEl(con[a]) k2 == k1 + NEl(con[b]) IN
   /\ con' = Append(con, MergeBlocks(MergeBlocks(MergeBlocks(<<>>, con[a], 0), con[b], k1), con[c], k2))
   /\ elems' = Append(elems, elems[a] \cup UpAll(elems[b], k1) \cup UpAll(elems[c], k2)) /\ UNCHANGED fresh
Next == NewRange \/ NewList \/ Shift \/ Concat \/ AppendTo \/ Compress \/ NewCon \/ AddDefault \/ AddNumbered \/ Merge
Spec == Init /\ [][Next]_vars
\* ---- what must hold
Refines == \A o \in DOMAIN obj : Denote(obj[o]) = abs[o]
ConDenote(c) == UNION {Pairs(Denote(c[k][2]), c[k][1], c[k][3]) : k \in DOMAIN c}
ConRefines == \A c \in DOMAIN con : ConDenote(con[c]) = elems[c]
Aligned == \A c \in DOMAIN con : \A k \in DOMAIN con[c] : Len(Denote(con[c][k][2])) = Len(con[c][k][3])
OneBlock == \A c \in DOMAIN con : \A j, k \in DOMAIN con[c] : con[c][j][1] = con[c][k][1] => j = k
\* numberings 0..n-1 merge to a numbering 0..n-1
Numbers(c) == {e[1] : e \in elems[c]}
Good(c) == Cardinality(elems[c]) = NEl(con[c]) /\ Numbers(c) = 0..(NEl(con[c]) - 1)
\* (default numbering keeps a good numbering good)
DefaultGood == [][\A c \in DOMAIN con : (Good(c) /\ AddDefault /\ con'[c] # con[c]) => Good(c)']_vars
MergeGood == [][(\A c \in DOMAIN con : Good(c)) /\ Merge => Good(Len(con))']_vars
=============================================================================
