------------------------------- MODULE FormatMap -------------------------------
(* The table of formats of the commands: readers and writers registered under
   names, and the choice of the one a command uses.
   Three registrations are possible at most; every history is emitted to be
   replayed in the code.                                                      *)
EXTENDS FormatRel, Json
CONSTANTS MaxReg, Emitting
VARIABLES hist, reg
vars == <<hist, reg>>
Init == hist = <<>> /\ reg = Base
Register == /\ Len(hist) < MaxReg
            /\ \E n \in DOMAIN ExtOf, k \in {"reader", "writer"} :
                 /\ hist' = Append(hist, <<k, n, ToString(Len(hist) + 1)>>)
                 /\ reg' = Put(reg, k, n, ToString(Len(hist) + 1))
Next == Register
Spec == Init /\ [][Next]_vars
\* what the table must hold is a function of the history
Last(k, n) == LET S == {i \in DOMAIN hist : hist[i][1] = k /\ hist[i][2] = n} IN
              IF S = {} THEN (IF n \in DOMAIN Base THEN Base[n][k] ELSE "") ELSE hist[CHOOSE i \in S : \A j \in S : j <= i][3]
KeepBoth == \A n \in DOMAIN reg, k \in {"reader", "writer"} : reg[n][k] = Last(k, n)
Known == DOMAIN reg = DOMAIN Base \cup {hist[i][2] : i \in DOMAIN hist}
\* a choice is unique or refused
Choice == \A f \in DOMAIN ExtOf \cup {"", "none"}, x \in {ExtOf[n] : n \in DOMAIN ExtOf} \cup {".zzz", ""}, c \in {"read", "write"} :
   LET u == Used(reg, f, x, c) IN
   /\ (f # "" /\ f \notin DOMAIN reg) => u = ""
   /\ u # "" => \E n \in DOMAIN reg : /\ u = reg[n][IF c = "read" THEN "reader" ELSE "writer"]
                                      /\ (f = n \/ (f = "" /\ ExtOf[n] = x /\ \A m \in DOMAIN reg : ExtOf[m] = x => m = n))
EmitH == Emitting => PrintT("@@" \o ToJson(hist))
=============================================================================
