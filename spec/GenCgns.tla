------------------------------- MODULE GenCgns --------------------------------
(* Ways to lay out CGNS bases, zones, sections and boundary conditions *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES scen, done
vars == <<scen, done>>
Pick(s) == s[RandomElement(DOMAIN s)]
ZoneS(x) == [dim |-> Pick(<<2, 3, 3>>), mix |-> Pick(<<"quad", "tri", "mixed", "mixed">>), order |-> Pick(<<"cells", "faces", "any", "any">>),
   names |-> Pick(<<"sorted", "reverse", "any">>), split |-> Pick(<<TRUE, FALSE>>), points |-> Pick(<<TRUE, FALSE, FALSE>>), extra |-> Pick(<<TRUE, FALSE, FALSE>>),
   int |-> Pick(<<4, 8>>), coords |-> Pick(<<"int", "float", "tiny">>),
   bcs |-> [k \in 1..Pick(<<0, 1, 2, 3, 5>>) |->
      [how |-> Pick(<<"vlist", "vlist", "vrange", "flist", "flist", "frange", "elist", "elist", "erange", "clist", "cells", "all", "joint">>),
       family |-> Pick(<<"own", "own", "none", "shared">>), grp |-> Pick(<<"BC_t", "BC_t", "GridConnectivity_t">>), loc |-> Pick(<<TRUE, FALSE>>), clash |-> Pick(<<TRUE, FALSE>>),
       size |-> Pick(<<"patch", "one", "cells">>), order |-> Pick(<<"sorted", "shuffled">>)]]]
Draw(x) == [zones |-> [k \in 1..Pick(<<1, 1, 1, 2, 3>>) |-> ZoneS(k)], bases |-> Pick(<<1, 1, 1, 2>>), ask |-> Pick(<<"name", "name", "none", "unknown">>), again |-> Pick(<<TRUE, FALSE>>)]
Init == scen = <<>> /\ done = FALSE
Next == ~done /\ (IF scen = <<>> THEN scen' = <<Draw(done)>> /\ UNCHANGED done ELSE done' = TRUE /\ UNCHANGED scen)
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(scen[1]))
=============================================================================
