-------------------------------- MODULE MemoBox --------------------------------
(* Design of the cache of results: what is held, against the history of the calls *)
EXTENDS BoxRel, Json
CONSTANTS Fns, Kinds, MaxOps
VARIABLES m, hist, ops
vars == <<m, hist, ops>>
KindsSmall == <<"value", "none", "rec", "raise", "once">>
KindsLarge == <<"value", "value", "rec", "rec", "none", "value", "raise", "once", "value", "value", "value", "rec", "value">>
Args == DOMAIN Kinds
K == Kinds
Init == m = Memo0(Fns) /\ hist = <<>> /\ ops = <<>>
Call == Len(ops) < MaxOps /\ \E f \in Fns, a \in Args :
   LET r == MCall(m, f, a, K) IN m' = r.m /\ hist' = Append(hist, <<f, a, r.v>>) /\ ops' = Append(ops, <<f, a>>)
Next == Call
Spec == Init /\ [][Next]_vars
\* every call of an argument after one that gave a value gives that value
SameValue == \A i, j \in DOMAIN hist : (i < j /\ hist[i][1] = hist[j][1] /\ hist[i][2] = hist[j][2] /\ hist[i][3][2] = "ok") => hist[j][3] = hist[i][3]
Counted == \A f \in Fns : /\ m.hits[f] + m.misses[f] >= Cardinality({i \in DOMAIN hist : hist[i][1] = f})
                          /\ Cardinality({x \in DOMAIN m.val : x[1] = f}) <= m.misses[f]
\* no more calls of the function than misses, one for each argument that gives a value
CallsAreMisses == LET RECURSIVE S(_) S(F) == IF F = {} THEN 0 ELSE LET f == CHOOSE x \in F : TRUE IN m.misses[f] + S(F \ {f}) IN m.n = S(Fns)
Separate == \A x, y \in DOMAIN m.val : (x # y /\ K[x[2]] # "none" /\ K[y[2]] # "none") => m.val[x] # m.val[y]
Emit == Len(ops) = MaxOps => PrintT("@@" \o ToJson(ops))
=============================================================================
