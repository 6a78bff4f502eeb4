------------------------------- MODULE GenGmsh --------------------------------
(* Ways to lay out a mesh in a GMSH file: each choice of the format that does
   not change the mesh, and the groups.  The harness gives concrete meshes.   *)
EXTENDS Naturals, Sequences, TLC, Json
VARIABLES scen, done
vars == <<scen, done>>
Pick(s) == s[RandomElement(DOMAIN s)]
Draw(z) == [dim |-> Pick(<<2, 2, 3, 3>>), mix |-> Pick(<<"quad", "tri", "mixed", "mixed">>),
   tags |-> Pick(<<"dense", "dense", "shuffled", "sparse", "sparse", "high">>),
   blocks |-> Pick(<<"one", "entity", "many", "many", "single">>), emptyb |-> Pick(<<TRUE, FALSE>>), lastone |-> Pick(<<TRUE, FALSE>>),
   param |-> Pick(<<TRUE, FALSE, FALSE>>),
   nent |-> Pick(<<1, 2, 3, 4, 6>>), ncent |-> Pick(<<1, 1, 2, 3>>),
   groups |-> Pick(<<"own", "own", "shared", "several", "some", "none">>), cgroup |-> Pick(<<"own", "own", "none">>),
   clash |-> Pick(<<"all", "some", "none">>), unnamed |-> Pick(<<"none", "none", "one", "cells">>),
   names |-> Pick(<<"plain", "plain", "space", "odd", "same">>),
   lower |-> Pick(<<"none", "points", "curves", "both">>), unused |-> Pick(<<0, 0, 1, 3>>),
   entorder |-> Pick(<<"sorted", "shuffled">>), eblocks |-> Pick(<<"one", "split">>), mixorder |-> Pick(<<TRUE, FALSE>>),
   ntags |-> Pick(<<2, 2, 3, 4>>), coords |-> Pick(<<"int", "float", "tiny">>), extra |-> Pick(<<"none", "none", "periodic", "comments">>),
   ent |-> Pick(<<TRUE, TRUE, TRUE, FALSE>>), flat |-> Pick(<<"xy", "xy", "any">>)]
Init == scen = <<>> /\ done = FALSE
Next == ~done /\ (IF scen = <<>> THEN scen' = <<Draw(done)>> /\ UNCHANGED done ELSE done' = TRUE /\ UNCHANGED scen)
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(scen[1]))
=============================================================================
