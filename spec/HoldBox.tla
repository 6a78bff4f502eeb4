-------------------------------- MODULE HoldBox --------------------------------
(* Design of C25: readers count as they go through a file, face after face; a mesh given is a
   copy of what the reader holds, or shares it; a reader starts afresh, or goes on from what it
   held.  Files are replaced at any time between two readings.  The relation of HoldRel between
   a reader and the file it read last may fail only with one of the two bad choices -- and then
   it does (action Seen).                                                                      *)
EXTENDS HoldRel, TLC
CONSTANT MaxOps
Codes == << <<>>, <<-1>>, <<-1, -3>>, <<0, -1, -1>> >>
VARIABLES afresh, shares, st, held, pos, want, n, seen
\* content: codes of the other side of each face
File(codes) == [kind |-> "restart", no |-> 3, cv |-> 1, faces |-> [k \in DOMAIN codes |-> << <<0, 1, 2>>, 0, codes[k]>>], zones |-> <<>>]
Made == [i \in DOMAIN Codes |-> File(Codes[i])]
vars == <<afresh, shares, st, held, pos, want, n, seen>>
Zero == [fa_count |-> 0, nfa_b |-> 0, nfa_bp |-> 0]
Sub(F) == [k \in DOMAIN Zero |-> Numbers(F)[k]]
Init == /\ afresh \in BOOLEAN /\ shares \in BOOLEAN
        /\ \E a \in DOMAIN Codes : st = Start(<<a>>)
        /\ held = <<>> /\ pos = <<>> /\ want = <<>> /\ n = 0 /\ seen = FALSE
Idle == \A r \in DOMAIN pos : pos[r] = 0
Step == Idle /\ n < MaxOps /\ ~seen /\ n' = n + 1 /\ UNCHANGED <<afresh, shares, seen>>
Open == Step /\ Len(st.rd) < 2 /\ st' = Op(st, [op |-> "open", x |-> 1]) /\ held' = Append(held, Zero) /\ pos' = Append(pos, 0) /\ UNCHANGED want
Rewrite == Step /\ \E k \in DOMAIN Codes : k # st.cur[1] /\ st' = Op(st, [op |-> "rewrite", x |-> 1, f |-> k]) /\ UNCHANGED <<held, pos, want>>
Begin == Step /\ \E r \in DOMAIN st.rd :
         /\ st' = Op(st, [op |-> "read", x |-> r])
         /\ held' = IF afresh THEN [held EXCEPT ![r] = Zero] ELSE held
         /\ pos' = [pos EXCEPT ![r] = 1] /\ UNCHANGED want
Face == \E r \in DOMAIN pos :
        /\ pos[r] > 0
        /\ LET fs == Made[st.rd[r].f].faces IN
           IF pos[r] > Len(fs) THEN pos' = [pos EXCEPT ![r] = 0] /\ UNCHANGED held
           ELSE /\ pos' = [pos EXCEPT ![r] = @ + 1]
                /\ held' = [held EXCEPT ![r].fa_count = @ + 1, ![r].nfa_b = IF fs[pos[r]][3] = -1 THEN @ + 1 ELSE @, ![r].nfa_bp = IF fs[pos[r]][3] < -1 THEN @ + 1 ELSE @]
        /\ UNCHANGED <<afresh, shares, st, want, n, seen>>
\* want: what the mesh has by itself; a shared one looks at the reader (src)
Export == Step /\ Len(st.ms) < 2 /\ \E r \in DOMAIN st.rd :
          st.rd[r].f # 0 /\ st' = Op(st, [op |-> "export", x |-> r]) /\ want' = Append(want, [src |-> r, num |-> held[r]]) /\ UNCHANGED <<held, pos>>
Touch == Step /\ \E m \in DOMAIN st.ms :
         /\ ~st.ms[m].over
         /\ st' = Op(st, [op |-> "params", x |-> m])
         /\ want' = [want EXCEPT ![m].num.nfa_b = 77]
         /\ held' = IF shares THEN [held EXCEPT ![want[m].src].nfa_b = 77] ELSE held
         /\ UNCHANGED pos
Has(m) == IF shares THEN held[want[m].src] ELSE want[m].num
ReaderOff == \E r \in DOMAIN st.rd : st.rd[r].f # 0 /\ held[r] # Sub(Made[st.rd[r].f])
MeshOff == \E m \in DOMAIN st.ms : Has(m) # [Sub(Made[st.ms[m].f]) EXCEPT !.nfa_b = IF st.ms[m].over THEN 77 ELSE @]
Differ == Idle /\ (ReaderOff \/ MeshOff)
Seen == Differ /\ ~seen /\ seen' = TRUE /\ UNCHANGED <<afresh, shares, st, held, pos, want, n>>
Next == Open \/ Rewrite \/ Begin \/ Face \/ Export \/ Touch \/ Seen
Spec == Init /\ [][Next]_vars
Sound == Differ => (~afresh \/ shares)
=============================================================================
