------------------------------- MODULE GenIc3 --------------------------------
(* Scenarios: IC3 files with every coincidence of the numbers of nodes, faces
   and cells, every small set of kinds of fields, then what is done with them. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Counts
FieldKinds == {"NO_D1", "NO_D3", "NO_II1", "CV_D1", "CV_D3", "CV_D33", "CV_II1"}
VARIABLES s
Rewrites == {2, 3}
Init == \E no \in Counts, fa \in Counts, cv \in Counts, ver \in {2, 3}, rw \in Rewrites, nd \in {1, 2, 3},
           ks \in {k \in SUBSET FieldKinds : Cardinality(k) \in 1..3} :
        /\ (nd > 1 => ver = 3 /\ rw = 3 /\ \E k \in ks : k \in {"CV_D1", "CV_D3", "CV_D33", "CV_II1"})
        /\ s = [no |-> no, fa |-> fa, cv |-> cv, ver |-> ver, rw |-> rw, ndof |-> nd, kinds |-> ks]
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Emit == PrintT("@@" \o ToJson(s))
=============================================================================
