------------------------------- MODULE TimerBox --------------------------------
(* Design of the timer: intervals that were closed since the last reset, and what is accumulated *)
EXTENDS BoxRel, Json
CONSTANTS Timers, MaxNow, MaxOps
VARIABLES now, st, closed, open, out, ops
vars == <<now, st, closed, open, out, ops>>
View == <<now, st, closed, open, out, Len(ops)>>
OpNames == {"start", "pause", "stop", "reset", "enter", "exit", "raise"}
Init == now = 0 /\ st = [t \in Timers |-> Timer0] /\ closed = [t \in Timers |-> {}] /\ open = [t \in Timers |-> <<>>] /\ out = <<>> /\ ops = <<>>
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<st, closed, open, out, ops>>
Do(t, op) ==
  /\ Len(ops) < MaxOps /\ (op \in {"exit", "raise"} => st[t].within) /\ (op = "enter" => ~st[t].within)
  /\ LET r == TStep(st[t], op, now) IN
     /\ st' = [st EXCEPT ![t] = r.st] /\ out' = <<t, op, r.out, r.rep>>
     \* ghosts: independent of the accumulated value
     /\ open' = [open EXCEPT ![t] = IF r.out = "refused" THEN @ ELSE IF op \in {"start", "enter"} THEN <<now>> ELSE <<>>]
     /\ closed' = [closed EXCEPT ![t] = IF r.out = "refused" THEN @ ELSE IF op = "pause" THEN @ \cup {<<open[t][1], now>>}
                                        ELSE IF op \in {"stop", "exit", "raise", "reset"} THEN {} ELSE @]
  /\ ops' = Append(ops, <<t, op>>) /\ UNCHANGED now
Step == \E t \in Timers, op \in OpNames : Do(t, op)
Next == Tick \/ Step
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] - x[1] + Sum(S \ {x})
Accumulates == \A t \in Timers : st[t].acc = Sum(closed[t])
RunningIsOpen == \A t \in Timers : st[t].run <=> open[t] # <<>>
Idle == \A t \in Timers : st[t].run => st[t].since = open[t][1] /\ st[t].since <= now
\* a report is the whole of the closed and open intervals, and the timer is as new afterwards
Reports == [][\A t \in Timers : (ops' # ops /\ out'[2] \in {"stop", "exit", "raise"} /\ out'[3] = "ok" /\ out'[1] = t) =>
               /\ out'[4] = Sum(closed[t]) + now - open[t][1] /\ ~st'[t].run /\ st'[t].acc = 0]_vars
Refuses == [][(ops' # ops /\ out'[3] = "refused") => \A t \in Timers : st'[t].run = st[t].run /\ st'[t].acc = st[t].acc]_vars
Emit == Len(ops) = MaxOps => PrintT("@@" \o ToJson(ops))
=============================================================================
