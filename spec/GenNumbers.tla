------------------------------ MODULE GenNumbers ------------------------------
(* All short sequences of small numbers: as index lists and as numberings *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLES s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E x \in 0..MaxLen : s' = Append(s, x)
Spec == Init /\ [][Next]_s
Emit == PrintT("@@" \o ToJson(s))
=============================================================================
