------------------------------ MODULE V4Chain --------------------------------
(* Design of IC3 version 4: boundary ranges as sorted offsets, a solution that
   holds the conservative fields when all are there and the statistics with
   their weights, and conversions between versions.
   A mesh: NF faces; marks <<name, first, last>> in any order that cover the
   boundary faces 0..nb-1 (empty ranges are possible), maybe the mark of the
   internal faces left by a reader; fields; state.
   ghost is what the property promises the mesh still holds.                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS NF, MaxMarks, MaxSteps
VARIABLES m, f, ghost, n
vars == <<m, f, ghost, n>>
Cons == {"RHO", "RHOU", "RHOE"}
Stat == {"A_AVG"}
Other == {"MU"}
SetOf(s) == {s[i] : i \in DOMAIN s}
Faces(x) == x[2]..x[3]
\* every way to cut 0..nb-1 into at most k ranges, some of them empty
Cuts(nb, k) == {c \in [0..k -> 0..nb] : c[0] = 0 /\ c[k] = nb /\ \A i \in 0..(k-1) : c[i] <= c[i+1]}
Orders(k) == {p \in [1..k -> 1..k] : \A i, j \in 1..k : i # j => p[i] # p[j]}
MarkLists(nb) == UNION {{[i \in 1..k |-> <<p[i], c[p[i]-1], c[p[i]] - 1>>] : p \in Orders(k), c \in Cuts(nb, k)} : k \in 1..MaxMarks}
Sol(fs) == (IF Cons \subseteq fs THEN Cons ELSE {}) \cup (fs \cap Stat)
Init == /\ \E nb \in 1..NF : \E ms \in MarkLists(nb) : \E fs \in {{}, Cons, Cons \cup Stat \cup Other, {"RHO", "A_AVG"}, Stat, Other} :
           \E w \in BOOLEAN :
             m = [marks |-> ms, fields |-> fs, step |-> 7, dt |-> 3, wgt |-> w, part |-> 2, int |-> FALSE]
        /\ f = [ver |-> 0] /\ ghost = m /\ n = 0
\* ---- version 4 writer: labels sorted by first face, offsets, last face
Last(ms) == CHOOSE x \in {y[3] : y \in SetOf(ms)} : \A y \in SetOf(ms) : y[3] <= x
\* empty ranges come first among those that start at the same face, or offsets would give them the next range
Tidy(ms) == LET P == {<<ms[i], i>> : i \in DOMAIN ms}
                less(a, b) == a[1][2] < b[1][2] \/ (a[1][2] = b[1][2] /\ (a[1][3] < b[1][3] \/ (a[1][3] = b[1][3] /\ a[2] < b[2])))
                rank(p) == 1 + Cardinality({q \in P : less(q, p)})
            IN [r \in 1..Len(ms) |-> (CHOOSE p \in P : rank(p) = r)[1]]
Zones(x) == Tidy(Append(x.marks, <<0, Last(x.marks) + 1, NF - 1>>))
Write4(sol) == /\ n < MaxSteps /\ f.ver = 0
               /\ LET z == Zones(m) IN
                  f' = [ver |-> 4, labels |-> [i \in DOMAIN z |-> z[i][1]], offsets |-> [i \in 1..(Len(z) + 1) |-> IF i > Len(z) THEN NF ELSE z[i][2]],
                        sol |-> sol, fields |-> IF sol THEN Sol(m.fields) ELSE {}, step |-> IF sol THEN m.step ELSE 0,
                        wgt |-> sol /\ m.wgt /\ m.fields \cap Stat # {}]
               /\ n' = n + 1 /\ UNCHANGED <<m, ghost>>
Read4 == /\ f.ver = 4
         /\ m' = [marks |-> LET z == [i \in DOMAIN f.labels |-> <<f.labels[i], f.offsets[i], f.offsets[i+1] - 1>>] IN SelectSeq(z, LAMBDA x : x[1] # 0),
                  fields |-> f.fields, step |-> f.step, dt |-> 0, wgt |-> f.wgt, part |-> 0, int |-> TRUE]
         /\ ghost' = [ghost EXCEPT !.fields = IF f.sol THEN Sol(@) ELSE {}, !.step = IF f.sol THEN @ ELSE 0, !.dt = 0, !.part = 0, !.int = TRUE,
                                   !.wgt = f.sol /\ @ /\ ghost.fields \cap Stat # {}]
         /\ f' = [ver |-> 0] /\ UNCHANGED n
\* ---- versions 2 and 3 keep everything (ranges are written as they are)
Write23 == n < MaxSteps /\ f.ver = 0 /\ f' = [ver |-> 2, mesh |-> m] /\ n' = n + 1 /\ UNCHANGED <<m, ghost>>
Read23 == f.ver = 2 /\ m' = [f.mesh EXCEPT !.int = TRUE, !.part = IF @ = 0 THEN 1 ELSE @] /\ ghost' = [ghost EXCEPT !.int = TRUE, !.part = IF @ = 0 THEN 1 ELSE @]
          /\ f' = [ver |-> 0] /\ UNCHANGED n
Next == (\E sol \in BOOLEAN : Write4(sol)) \/ Read4 \/ Write23 \/ Read23
Spec == Init /\ [][Next]_vars
\* ---- properties
SameMarks == {<<x[1], Faces(x)>> : x \in SetOf(m.marks)} = {<<x[1], Faces(x)>> : x \in SetOf(ghost.marks)}
SameRest == m.fields = ghost.fields /\ m.step = ghost.step /\ m.dt = ghost.dt /\ m.wgt = ghost.wgt /\ m.part = ghost.part
Keeps == SameMarks /\ SameRest
OffsetsTile == f.ver = 4 => /\ f.offsets[1] = 0 /\ f.offsets[Len(f.offsets)] = NF /\ \A i \in 1..(Len(f.offsets) - 1) : f.offsets[i] <= f.offsets[i+1]
\* once through version 4 with a solution, more of it changes nothing
Fixed == (f.ver = 4 /\ f.sol /\ m.dt = 0 /\ m.part = 0) => f.fields = m.fields /\ f.step = m.step
=============================================================================
