-------------------------------- MODULE ProbeBox -------------------------------
(* Design of the probe data: a request reads, or else computes, asking first for what it needs.
   Files are put, rewritten and removed between the requests.                                   *)
EXTENDS ProbeRel, Json
CONSTANTS Vars, MaxPut, MaxReq, Still   \* Still: files do not change once requests have begun
VARIABLES files, put, held, time, req, failed
vars == <<files, put, held, time, req, failed>>
None == [v \in {} |-> ""]
RECURSIVE Get(_, _, _)
RECURSIVE GetAll(_, _, _)
Get(h, fs, v) ==
  IF v \in DOMAIN h THEN [h |-> h, ok |-> TRUE]
  ELSE IF v \in DOMAIN fs THEN [h |-> (v :> FileTerm(v, fs[v])) @@ h, ok |-> TRUE]
  ELSE IF v \notin Computable THEN [h |-> h, ok |-> FALSE]
  ELSE LET r == GetAll(h, fs, Deps[v]) IN
       IF r.ok THEN [h |-> (v :> CompTerm(v, r.h)) @@ r.h, ok |-> TRUE] ELSE r
GetAll(h, fs, s) == IF s = <<>> THEN [h |-> h, ok |-> TRUE]
                    ELSE LET r == Get(h, fs, s[1]) IN IF r.ok THEN GetAll(r.h, fs, Tail(s)) ELSE r
Init == files = [v \in {} |-> 0] /\ put = 0 /\ held = None /\ time = "" /\ req = <<>> /\ failed = FALSE
Put == /\ put < MaxPut /\ put' = put + 1 /\ (Still => req = <<>>)
       /\ \E v \in Vars : (Still => v \notin DOMAIN files) /\ files' = (v :> (IF v \in DOMAIN files THEN files[v] + 1 ELSE 1)) @@ files
       /\ UNCHANGED <<held, time, req, failed>>
Remove == /\ ~Still /\ \E v \in DOMAIN files : files' = [w \in DOMAIN files \ {v} |-> files[w]] /\ UNCHANGED <<put, held, time, req, failed>>
Request == /\ Len(req) < MaxReq /\ \E v \in Vars :
              LET r == Get(held, files, v) IN
              /\ held' = r.h /\ failed' = ~r.ok /\ req' = Append(req, v)
              /\ time' = IF time # "" \/ \A w \in DOMAIN r.h \ DOMAIN held : w \notin DOMAIN files THEN time
                         ELSE CHOOSE w \in DOMAIN r.h \ DOMAIN held : w \in DOMAIN files
           /\ UNCHANGED <<files, put>>
Next == Put \/ Remove \/ Request
Spec == Init /\ [][Next]_vars
\* ---- what must hold
Asked == req' # req
LastReq == req'[Len(req')]
Accepted == [][Asked => RightNew(held, held', files, LastReq)]_vars
Answered == [][Asked => (~failed' <=> Possible(DOMAIN held, files, LastReq)) /\ (~failed' => LastReq \in DOMAIN held')]_vars
KeepsHeld == [][\A v \in DOMAIN held : v \in DOMAIN held' /\ held'[v] = held[v]]_vars
\* with files that do not change, what is held does not depend on the requests made before
RECURSIVE Canon(_)
Canon(v) == IF v \in DOMAIN files THEN FileTerm(v, files[v]) ELSE CompTerm(v, [w \in Rgp(Deps[v]) |-> Canon(w)])
OrderFree == Still => \A v \in DOMAIN held : held[v] = Canon(v)
View == <<files, put, held, time, failed, Len(req), IF req = <<>> THEN "" ELSE req[Len(req)]>>
DepsSmall == [Asound |-> <<"P", "RHO">>, U |-> <<"UX">>, Mach |-> <<"U", "Asound">>, INV |-> <<"UX", "Asound">>]
=============================================================================
