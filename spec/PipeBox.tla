-------------------------------- MODULE PipeBox --------------------------------
(* Design of the conversion: read, remove cell data, remove node data (name by name),
   choose the name of the output, extrude, scale, write - one step at a time, with other
   files in the folders.  Nodes are heights in units of 1/4; extrusion adds planes up to
   height 1.  The invariant is the definition of what was requested, and that all other
   files are as they were.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES pc, opt, inp, m, disk, disk0, out, todo
vars == <<pc, opt, inp, m, disk, disk0, out, todo>>
SetOf(s) == {s[i] : i \in DOMAIN s}
Without(d, names) == SelectSeq(d, LAMBDA x : x \notin names)
Fields == {<<>>, <<"a">>, <<"b", "a">>}
Removals == {<<>>, <<"a">>, <<"c">>, <<"a", "a">>, <<"b", "c">>}
Meshes == {[z |-> z, nd |-> n, cd |-> d] : z \in {<<0, 4>>, <<-2, 1>>}, n \in Fields, d \in Fields}
Options == {[cells |-> a, nodes |-> b, nz |-> k, f |-> f, dir |-> d] : a \in Removals, b \in Removals, k \in {0, 1, 2, 4}, f \in {0, 1, -2}, d \in {"cwd", "to"}}
Name(i) == IF i = 0 THEN "in.ic3" ELSE IF i = 1 THEN "in(1).ic3" ELSE "in(2).ic3"
Others == {{}, {<<"cwd", 0>>}, {<<"to", 0>>, <<"to", 1>>}, {<<"cwd", 0>>, <<"to", 0>>}}
Disk(o) == [p \in {<<"cwd", "in.msh">>} \cup {<<x[1], Name(x[2])>> : x \in o} |-> IF p[2] = "in.msh" THEN inp ELSE "other"]
Init == /\ inp \in Meshes /\ opt \in Options /\ (opt.nz > 0 => inp.nd = <<>> /\ inp.cd = <<>>)
        /\ \E o \in Others : disk = Disk(o)
        /\ disk0 = disk /\ pc = "read" /\ m = [z |-> <<>>, nd |-> <<>>, cd |-> <<>>] /\ out = <<"", "">> /\ todo = <<>>
Stay == UNCHANGED <<opt, inp, disk0>>
Read == pc = "read" /\ m' = disk[<<"cwd", "in.msh">>] /\ todo' = opt.cells /\ pc' = "cells" /\ Stay /\ UNCHANGED <<disk, out>>
PopCell == pc = "cells" /\ todo # <<>> /\ m' = [m EXCEPT !.cd = Without(@, {Head(todo)})] /\ todo' = Tail(todo) /\ Stay /\ UNCHANGED <<pc, disk, out>>
CellsDone == pc = "cells" /\ todo = <<>> /\ todo' = opt.nodes /\ pc' = "nodes" /\ Stay /\ UNCHANGED <<m, disk, out>>
PopNode == pc = "nodes" /\ todo # <<>> /\ m' = [m EXCEPT !.nd = Without(@, {Head(todo)})] /\ todo' = Tail(todo) /\ Stay /\ UNCHANGED <<pc, disk, out>>
NodesDone == pc = "nodes" /\ todo = <<>> /\ out' = <<opt.dir, Name(0)>> /\ pc' = "name" /\ Stay /\ UNCHANGED <<m, disk, todo>>
Taken == pc = "name" /\ out \in DOMAIN disk /\ out' = <<opt.dir, Name((CHOOSE i \in 0..1 : Name(i) = out[2]) + 1)>> /\ Stay /\ UNCHANGED <<pc, m, disk, todo>>
Free == pc = "name" /\ out \notin DOMAIN disk /\ pc' = "extrude" /\ Stay /\ UNCHANGED <<m, disk, out, todo>>
Extrude == pc = "extrude" /\ pc' = "scale" /\ Stay /\ UNCHANGED <<disk, out, todo>>
           /\ m' = IF opt.nz = 0 THEN m
                   ELSE LET n == Len(m.z) IN [z |-> [i \in 1..(n * (opt.nz + 1)) |-> m.z[1 + ((i - 1) % n)] + ((i - 1) \div n) * (4 \div opt.nz)], nd |-> <<>>, cd |-> <<>>]
Scale == pc = "scale" /\ m' = [m EXCEPT !.z = [i \in DOMAIN @ |-> opt.f * @[i]]] /\ pc' = "write" /\ Stay /\ UNCHANGED <<disk, out, todo>>
Write == pc = "write" /\ disk' = (out :> m) @@ disk /\ pc' = "done" /\ Stay /\ UNCHANGED <<m, out, todo>>
Next == Read \/ PopCell \/ CellsDone \/ PopNode \/ NodesDone \/ Taken \/ Free \/ Extrude \/ Scale \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* what is requested, in one piece
Plane(k) == [i \in DOMAIN inp.z |-> opt.f * (inp.z[i] + IF opt.nz = 0 THEN 0 ELSE k * (4 \div opt.nz))]
RECURSIVE Planes(_)
Planes(k) == IF k > opt.nz THEN <<>> ELSE Plane(k) \o Planes(k + 1)
Requested == [z |-> Planes(0), nd |-> Without(inp.nd, SetOf(opt.nodes)), cd |-> Without(inp.cd, SetOf(opt.cells))]
Exact == pc = "done" => disk[out] = Requested
OthersKept == \A p \in DOMAIN disk0 : disk[p] = disk0[p]
OneFile == pc = "done" => DOMAIN disk = DOMAIN disk0 \cup {out} /\ out \notin DOMAIN disk0 /\ out[1] = opt.dir
NoOption == (pc = "done" /\ opt.cells = <<>> /\ opt.nodes = <<>> /\ opt.nz = 0 /\ opt.f = 1) => disk[out] = inp
Ends == <>(pc = "done")
=============================================================================
