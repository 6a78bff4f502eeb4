-------------------------------- MODULE DataBox --------------------------------
(* Design of data sets: a table of names with the order of their addition, derived sets and lists of sets.
   added is the history of what was given to each set; views of the table must agree with it               *)
EXTENDS BoxRel, Json
CONSTANTS Names, MaxSets, MaxOps
VARIABLES sets, added, ops
vars == <<sets, added, ops>>
View == <<sets, added, Len(ops)>>
Init == sets = <<>> /\ added = <<>> /\ ops = <<>>
Log(r) == ops' = Append(ops, r)
New == /\ Len(sets) < MaxSets /\ \E t \in {"timeevol", "instant"} :
          /\ sets' = Append(sets, [items |-> <<>>, trep |-> t]) /\ added' = Append(added, <<>>) /\ Log([op |-> "new", trep |-> t])
Add == \E d \in DOMAIN sets, x \in Names : LET v == Len(ops) + 1 IN
          /\ sets' = [sets EXCEPT ![d].items = Put(@, x, v)] /\ added' = [added EXCEPT ![d] = Append(@, <<x, v>>)] /\ Log([op |-> "add", d |-> d, name |-> x])
Pop == \E d \in DOMAIN sets, x \in Names :
          /\ sets' = [sets EXCEPT ![d].items = Drop(@, x)] /\ added' = [added EXCEPT ![d] = Drop(@, x)] /\ Log([op |-> "pop", d |-> d, name |-> x])
\* a derived set holds one item for each field asked for
Derive == \E d \in DOMAIN sets, f \in {<<>>} \cup {<<x>> : x \in Names} \cup {<<x, y>> : x, y \in Names} :
   /\ Len(sets) < MaxSets /\ Log([op |-> "spectrum", d |-> d, filter |-> f])
   /\ IF Derivable(sets[d]) /\ Rgb(Asked(sets[d], f)) \subseteq Rgb(NamesIn(sets[d].items))
      THEN LET its == <<<<"freq", 0>>>> \o [k \in DOMAIN Asked(sets[d], f) |-> <<Asked(sets[d], f)[k], 100 + k>>] IN
           sets' = Append(sets, [items |-> its, trep |-> "spectrum"]) /\ added' = Append(added, its)
      ELSE UNCHANGED <<sets, added>>
Next == Len(ops) < MaxOps /\ (New \/ Add \/ Pop \/ Derive)
Spec == Init /\ [][Next]_vars
Last(s, x) == s[CHOOSE k \in DOMAIN s : s[k][1] = x /\ \A j \in DOMAIN s : s[j][1] = x => j <= k][2]
KeepsAdded == \A d \in DOMAIN sets : /\ Rgb(NamesIn(sets[d].items)) = Rgb(NamesIn(added[d]))
                                     /\ \A k \in DOMAIN sets[d].items : sets[d].items[k][2] = Last(added[d], sets[d].items[k][1])
NoDuplicate == \A d \in DOMAIN sets : \A j, k \in DOMAIN sets[d].items : j # k => sets[d].items[j][1] # sets[d].items[k][1]
\* deriving adds a set and changes no other
DeriveKeeps == [][\A d \in DOMAIN sets : (ops' # ops /\ ops'[Len(ops')].op = "spectrum") => sets'[d] = sets[d]]_vars
=============================================================================
