------------------------------ MODULE GenDamage -------------------------------
(* Damages of an IC3 file that a reader must notice: a count repeated in another
   section, the number of nodes of a face, an entry of a check section.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
Slots == ({"COUNTS"} \X {0, 1, 2, 3}) \cup ({"NOOFA"} \X {0, 1}) \cup ({"CVOFA", "CV_PART", "X_NO", "FIELD"} \X {0})
Checks == {"NO_CHECK", "FA_CHECK", "CV_CHECK"}
Deltas == {-1, 1, 7}
Wheres == {"first", "middle", "last"}
Count == {[what |-> "count", k |-> s[1], slot |-> s[2], delta |-> d, where |-> "", integrity |-> g] : s \in Slots, d \in Deltas, g \in BOOLEAN}
CheckCount == {[what |-> "count", k |-> k, slot |-> 0, delta |-> d, where |-> "", integrity |-> TRUE] : k \in Checks, d \in Deltas}
FaceSize == {[what |-> "entry", k |-> "NOOFA", slot |-> 0, delta |-> d, where |-> w, integrity |-> g] : w \in Wheres, d \in {-1, 1}, g \in BOOLEAN}
Entry == {[what |-> "entry", k |-> k, slot |-> 0, delta |-> d, where |-> w, integrity |-> TRUE] : k \in Checks, w \in Wheres, d \in Deltas}
Swap == {[what |-> "swap", k |-> k, slot |-> 0, delta |-> 0, where |-> w, integrity |-> TRUE] : k \in Checks, w \in Wheres}
VARIABLE s
Init == s \in Count \cup CheckCount \cup FaceSize \cup Entry \cup Swap
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
Emit == PrintT("@@" \o ToJson(s))
=============================================================================
