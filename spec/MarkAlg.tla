------------------------------ MODULE MarkAlg -------------------------------
(* Design of the preparation of marks: node marks become face marks, free
   faces get a mark of their own, boundary faces are renumbered so that every
   mark is a range.  Exhaustive over all pairs of marks (by nodes or by faces)
   on the boundary of one small cell.                                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Shape, Mutation, Emitting
Tetra == << {0,2,1}, {0,1,3}, {1,2,3}, {2,0,3} >>
Prism == << {0,1,2}, {3,4,5}, {0,1,4,3}, {1,2,5,4}, {2,0,3,5} >>
Faces == IF Shape = "tetra" THEN Tetra ELSE Prism       \* geometric faces: position g
Nodes == UNION {Faces[g] : g \in DOMAIN Faces}
NF == Len(Faces)
VARIABLES num,       \* number of geometric face g
          own,       \* row of the owner table: own[n+1] = geometric face whose owner stands there
          marks,     \* sequence of [by, set or seq]
          phase, mem \* mem: the claims, as sets of geometric faces, fixed at the start
vars == <<num, own, marks, phase, mem>>
NMark(S) == [by |-> "node", set |-> S, seq |-> <<>>]
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetToSeq(S \ {x})
FMark(s) == [by |-> "face", set |-> {}, seq |-> s]
Rg(s) == {s[i] : i \in DOMAIN s}
FaceAt(n) == CHOOSE g \in DOMAIN num : num[g] = n
ClaimOf(m) == IF m.by = "node" THEN {g \in DOMAIN Faces : Faces[g] \subseteq m.set} ELSE {FaceAt(m.seq[i]) : i \in DOMAIN m.seq}
Choices == {NMark(S) : S \in SUBSET Nodes \ {{}}} \cup {FMark(SetToSeq(S)) : S \in SUBSET (0..(NF-1)) \ {{}}}
Init == /\ num = [g \in 1..NF |-> NF - g]          \* any numbering: reversed
        /\ own = [n \in 1..NF |-> NF + 1 - n]
        /\ \E a, b \in Choices : marks = <<a, b>>
        /\ phase = "start" /\ mem = <<ClaimOf(marks[1]), ClaimOf(marks[2])>>
Overlap == mem[1] \cap mem[2] # {}
RECURSIVE Concat(_)
Concat(ms) == IF ms = <<>> THEN <<>> ELSE Head(ms).seq \o Concat(Tail(ms))
Convert == /\ phase = "start"
           /\ marks' = [i \in DOMAIN marks |-> IF marks[i].by = "node"
                 THEN FMark(SetToSeq({num[g] : g \in {h \in DOMAIN Faces :
                       IF Mutation = "any node" THEN Faces[h] \cap marks[i].set # {} ELSE Faces[h] \subseteq marks[i].set}})) ELSE marks[i]]
           /\ phase' = "converted" /\ UNCHANGED <<num, own, mem>>
Complete == /\ phase = "converted"
            /\ LET missing == (0..(NF-1)) \ Rg(Concat(marks)) IN
               marks' = IF missing = {} THEN marks ELSE Append(marks, FMark(SetToSeq(missing)))
            /\ phase' = "completed" /\ UNCHANGED <<num, own, mem>>
Renumber == /\ phase = "completed"
            /\ LET old == Concat(marks)
                   new == [n \in 0..(NF-1) |-> IF \E k \in DOMAIN old : old[k] = n THEN (CHOOSE k \in DOMAIN old : old[k] = n) - 1 ELSE -1]
               IN IF Cardinality(Rg(old)) # Len(old)
                  THEN phase' = "refused" /\ UNCHANGED <<num, own, marks>>
                  ELSE /\ marks' = [i \in DOMAIN marks |-> FMark([k \in DOMAIN marks[i].seq |-> new[marks[i].seq[k]]])]
                       /\ num' = [g \in DOMAIN num |-> new[num[g]]]
                       /\ own' = [n \in 1..NF |-> IF Mutation = "owners" THEN own[new[n-1] + 1] ELSE own[old[n] + 1]]
                       /\ phase' = "done"
            /\ mem' = mem
Next == Convert \/ Complete \/ Renumber
Spec == Init /\ [][Next]_vars
Contig(s) == \A k \in DOMAIN s : s[k] = s[1] + k - 1
Refusal == (phase = "refused" => Overlap) /\ (phase = "done" => ~Overlap)
Kept == phase = "done" =>
  /\ \A i \in 1..2 : {FaceAt(marks[i].seq[k]) : k \in DOMAIN marks[i].seq} = mem[i] /\ Contig(marks[i].seq)
  /\ Rg(Concat(marks)) = 0..(NF-1) /\ Len(Concat(marks)) = NF
  /\ (mem[1] \cup mem[2] = DOMAIN Faces <=> Len(marks) = 2)
  /\ \A g \in DOMAIN Faces : own[num[g] + 1] = g
Emit == (Emitting /\ phase = "start") => PrintT("@@" \o ToJson([i \in 1..2 |-> [by |-> marks[i].by, set |-> SetToSeq(marks[i].set), claim |-> SetToSeq(mem[i])]]))
=============================================================================
