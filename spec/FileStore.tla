------------------------------ MODULE FileStore --------------------------------
(* Where a command puts its result.  A folder holds numbered names
      0 = stem.suf, 1 = stem(1).suf, 2 = stem(2).suf ...
   A command without the overwrite option looks for the first free number, one
   step at a time, and then writes; a command with the option writes number 0.
   Another program may put files in the folder between two commands.
   The same module generates the histories replayed on the real code.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Max,      \* numbers that may be occupied at the beginning: 0..Max
          Steps,    \* commands in a history
          Kinds,    \* what an occupied name may be
          Env,      \* other programs may add files
          Dests, Cmds, Styles
ASSUME "none" \in Kinds
VARIABLES pre, fs, pc, i, cur, hist, style, written
vars == <<pre, fs, pc, i, cur, hist, style, written>>
Limit == Max + Steps + 2
Full(p) == [n \in 0..Limit |-> IF n \in DOMAIN p THEN p[n] ELSE "none"]
Init == /\ pre \in [0..Max -> Kinds]
        /\ fs = [d \in Dests |-> Full(pre)]
        /\ pc = "idle" /\ i = 0 /\ cur = [cmd |-> "", dest |-> "", ovw |-> FALSE, inp |-> ""] /\ hist = <<>>
        /\ style \in Styles /\ written = {}
CanOverwrite(c) == c \notin {"ic3v2", "ic3v3", "vtk", "vtkpack"}
Start(c, d, o, p) ==
  /\ pc = "idle" /\ Len(hist) < Steps
  /\ o => CanOverwrite(c)
  /\ (c = "vtkpack" => d = "cwd")
  /\ (p # "other" => c \in {"ic3v2", "ic3v3", "vtk"})
  /\ cur' = [cmd |-> c, dest |-> d, ovw |-> o, inp |-> p]
  /\ pc' = (IF o THEN "write" ELSE "look") /\ i' = 0
  /\ UNCHANGED <<pre, fs, hist, style, written>>
Look == /\ pc = "look"
        /\ IF fs[cur.dest][i] = "none" THEN pc' = "write" /\ i' = i ELSE pc' = "look" /\ i' = i + 1
        /\ UNCHANGED <<pre, fs, cur, hist, style, written>>
Write == /\ pc = "write"
         /\ fs' = IF fs[cur.dest][i] = "dir" THEN fs ELSE [fs EXCEPT ![cur.dest][i] = "new"]
         /\ written' = IF fs[cur.dest][i] = "dir" THEN written ELSE written \cup {<<cur.dest, i>>}
         /\ hist' = Append(hist, cur) /\ pc' = "idle"
         /\ UNCHANGED <<pre, i, cur, style>>
Other == /\ Env /\ pc = "idle" /\ Len(hist) \in 1..(Steps - 1)
         /\ \E d \in Dests, n \in 0..Max : fs[d][n] = "none" /\ fs' = [fs EXCEPT ![d][n] = "file"]
         /\ UNCHANGED <<pre, pc, i, cur, hist, style, written>>
Next == \/ \E c \in Cmds, d \in Dests, o \in BOOLEAN, p \in {"cwd", "other", "dest"} : Start(c, d, o, p)
        \/ Look \/ Write \/ Other
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
\* what was there is only ever replaced by a command that names it with the overwrite option
Kept == [][\A d \in Dests, n \in 0..Limit :
             fs[d][n] # "none" /\ fs'[d][n] # fs[d][n] => pc = "write" /\ cur.ovw /\ cur.dest = d /\ n = 0]_vars
\* a result is written at the first free number
FirstFree == [][pc = "write" /\ pc' = "idle" /\ ~cur.ovw =>
                  /\ fs[cur.dest][i] = "none"
                  /\ \A k \in 0..(i - 1) : fs[cur.dest][k] # "none"]_vars
Fresh == [][Cardinality(written') = Cardinality(written) + 1 \/ written' = written]_vars
Bounded == i <= Limit
Emit == (pc = "idle" /\ Len(hist) = Steps) =>
          PrintT("@@" \o ToJson([pre |-> [n \in 1..(Max + 1) |-> pre[n - 1]], style |-> style, ops |-> hist]))
=============================================================================
