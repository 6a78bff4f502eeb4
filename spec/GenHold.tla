-------------------------------- MODULE GenHold --------------------------------
(* Histories of readers: files in places, replaced, read, read again; meshes given and changed *)
EXTENDS HoldRel, TLC, Json
VARIABLES fmt, files, st, plan, n, done
vars == <<fmt, files, st, plan, n, done>>
Pick(s) == s[RandomElement({i \in DOMAIN s : ~done})]
Content(f) == IF f \in {"v2", "v3", "v4"}
  THEN [fmt |-> f, no |-> Pick(<<4, 6, 9>>), fa |-> Pick(<<2, 3, 5, 7>>), cv |-> Pick(<<1, 2, 3, 4>>), ndof |-> Pick(<<1, 1, 2, 3>>), other |-> Pick(<<"plain", "plain", "periodic", "mixed", "mixed", "closed">>),
        kinds |-> [k \in 1..Pick(<<0, 1, 2, 3>>) |-> Pick(<<"NO_D1", "NO_D3", "CV_D1", "CV_D3", "CV_D33">>)], ff |-> [k \in 1..Pick(<<0, 0, 1, 2>>) |-> Pick(<<"FA_D1", "FA_D3">>)],
        perm |-> Pick(<<"none", "none", "foreign", "permuted">>), stats |-> Pick(<<FALSE, TRUE>>), twin |-> Pick(<<FALSE, FALSE, TRUE>>)]
  ELSE [fmt |-> f, mesh |-> Pick(<<"solid", "solid", "plane">>), npatch |-> Pick(<<0, 1, 2, 3>>)]
Init == fmt = <<>> /\ files = <<>> /\ st = Start(<<>>) /\ plan = <<>> /\ n = 0 /\ done = FALSE
Formats == <<"v2", "v2", "v3", "v3", "v4", "v4", "v4", "msh22", "msh41", "cgns", "vtu">>
Begin == /\ n = 0 /\ n' \in {Pick(<<5, 8, 11>>)}
         /\ fmt' \in {[p \in 1..Pick(<<1, 1, 2>>) |-> Pick(Formats)]}
         /\ files' \in {[p \in DOMAIN fmt' |-> Content(fmt'[p])]}
         /\ st' = Start([p \in DOMAIN fmt' |-> p]) /\ UNCHANGED <<plan, done>>
Read(s) == {r \in DOMAIN s.rd : s.rd[r].f # 0}
Stale(s) == {r \in DOMAIN s.rd : s.rd[r].f # s.cur[s.rd[r].p]}
Able(o) == CASE o = "open" -> Len(st.rd) < 3 [] o = "read" -> st.rd # <<>> [] o = "catchup" -> Stale(st) # {} [] o = "export" -> Read(st) # {} /\ Len(st.ms) < 4 [] o = "rewrite" -> TRUE
                [] OTHER -> st.ms # <<>>
OneOf(S) == RandomElement({i \in S : ~done})
Do(e) == plan' = Append(plan, e) /\ st' = Op(st, e)
Step == /\ n > 0 /\ Len(plan) < n /\ UNCHANGED <<fmt, n, done>>
        /\ \E o \in {IF st.rd = <<>> THEN "open" ELSE IF Read(st) = {} THEN "read" ELSE
                     LET ops == SelectSeq(<<"open", "read", "catchup", "catchup", "catchup", "rewrite", "rewrite", "export", "export", "params", "pop", "scale">>, Able) IN Pick(ops)} :
           CASE o = "open" -> (\E p \in {OneOf(DOMAIN fmt)} : Do([op |-> "open", x |-> p])) /\ UNCHANGED files
             [] o = "read" -> (\E r \in {OneOf(DOMAIN st.rd)} : Do([op |-> "read", x |-> r])) /\ UNCHANGED files
             [] o = "catchup" -> (\E r \in {OneOf(Stale(st))} : Do([op |-> "read", x |-> r])) /\ UNCHANGED files
             [] o = "export" -> (\E r \in {OneOf(Read(st))} : Do([op |-> "export", x |-> r])) /\ UNCHANGED files
             [] o = "rewrite" -> \E p \in {OneOf(DOMAIN fmt)} : files' \in {Append(files, Content(fmt[p]))} /\ Do([op |-> "rewrite", x |-> p, f |-> Len(files) + 1])
             [] OTHER -> (\E m \in {OneOf(DOMAIN st.ms)} : Do([op |-> o, x |-> m])) /\ UNCHANGED files
Stop == n > 0 /\ Len(plan) = n /\ ~done /\ done' = TRUE /\ UNCHANGED <<fmt, files, st, plan, n>>
Next == Begin \/ Step \/ Stop
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson([fmt |-> fmt, files |-> files, plan |-> plan]))
=============================================================================
