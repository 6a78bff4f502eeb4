------------------------------- MODULE PolyAlg --------------------------------
(* Design of interpolation weights in exact arithmetic: nodes are distinct
   integers, weights are products built factor by factor; at the end they give
   back every polynomial of degree below the number of nodes, at every x, and
   no other weights do (weights do not depend on the basis): changing one by
   one unit breaks the polynomial 1.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxNode, MaxOrder
VARIABLES nodes, x, i, j, num, den
vars == <<nodes, x, i, j, num, den>>
Rising(q) == \A a \in DOMAIN q, b \in DOMAIN q : a < b => q[a] < q[b]
Init == /\ nodes \in UNION {{q \in [1..m -> -MaxNode..MaxNode] : Rising(q)} : m \in 1..MaxOrder}
        /\ x \in -(MaxNode + 1)..(MaxNode + 1) /\ i = 1 /\ j = 1 /\ num = [k \in DOMAIN nodes |-> 1] /\ den = [k \in DOMAIN nodes |-> 1]
Factor == /\ i <= Len(nodes) /\ j <= Len(nodes)
          /\ num' = IF i = j THEN num ELSE [num EXCEPT ![i] = @ * (x - nodes[j])]
          /\ den' = IF i = j THEN den ELSE [den EXCEPT ![i] = @ * (nodes[i] - nodes[j])]
          /\ j' = j + 1 /\ UNCHANGED <<nodes, x, i>>
NextNode == i <= Len(nodes) /\ j > Len(nodes) /\ i' = i + 1 /\ j' = 1 /\ UNCHANGED <<nodes, x, num, den>>
Next == Factor \/ NextNode
Spec == Init /\ [][Next]_vars
RECURSIVE Prod(_, _), Sum(_, _), Pow(_, _)
Prod(q, k) == IF k = 0 THEN 1 ELSE q[k] * Prod(q, k - 1)
Sum(F(_), k) == IF k = 0 THEN 0 ELSE F(k) + Sum(F, k - 1)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
All == Prod(den, Len(den))
Done == i > Len(nodes)
Exact == Done => \A e \in 0..(Len(nodes) - 1) :
   Sum(LAMBDA k : num[k] * (All \div den[k]) * Pow(nodes[k], e), Len(nodes)) = All * Pow(x, e)
AtNodes == Done => \A k \in DOMAIN nodes : x = nodes[k] => \A a \in DOMAIN nodes : num[a] = IF a = k THEN den[a] ELSE 0
=============================================================================
