-------------------------------- MODULE HoldRel --------------------------------
(* What a file contains, as numbers a reader keeps of it, and what is observed of
   readers and of the meshes they gave.

   A restart file F: no, cv; faces <<nodes, cell, other>> (other: cell, -1 at an assigned
   boundary, below at a periodic one); zones <<name, first, last>> over faces; ff face fields
   <<name, width, values>>; part <<number of parts, part of each cell>> or <<>>; step; cd, nd data <<name, values>>;
   wgt names of weights in the state.
   Another file: no, elems (dimension of each cell, and of one element of each mark).
   Of both: xyz coordinates.  Numbers of reals are bit patterns.                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
RECURSIVE SumLens(_, _)
SumLens(fs, k) == IF k > Len(fs) THEN 0 ELSE Len(fs[k][1]) + SumLens(fs, k + 1)
Count(S) == Cardinality(S)
Restart(F) == F.kind = "restart"
Top(F) == CHOOSE d \in {F.elems[k] : k \in DOMAIN F.elems} : \A k \in DOMAIN F.elems : F.elems[k] <= d
NCell(F) == IF Restart(F) THEN F.cv ELSE Count({k \in DOMAIN F.elems : F.elems[k] = Top(F)})
Numbers(F) == [no_count |-> F.no, fa_count |-> Len(F.faces), cv_count |-> F.cv, noofa_count |-> SumLens(F.faces, 1), nboco |-> Len(F.zones),
   nfa_b |-> Count({k \in DOMAIN F.faces : F.faces[k][3] = -1}), nfa_bp |-> Count({k \in DOMAIN F.faces : F.faces[k][3] < -1})]
Range(s) == {s[k] : k \in DOMAIN s}
Ascending(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
\* nodes touched by the faces of a zone, numbered from 0
ZoneNodes(F, z) == UNION {Range(F.faces[k + 1][1]) : k \in z[2]..z[3]}
Cl(name, ok) == IF ok THEN {} ELSE {name}
\* what a reader holds (H) of the file it read
Holds(F, H) == Cl("the number of cells", H.ncell = NCell(F)) \cup
  (IF ~Restart(F) THEN Cl("the number of nodes", H.nnode \in {-1, F.no})
   ELSE UNION {Cl("the number " \o k, H.num[k] = Numbers(F)[k]) : k \in DOMAIN Numbers(F)}
     \cup UNION {Cl("the number told of " \o k, H.said[k] = Numbers(F)[k]) : k \in DOMAIN Numbers(F)}
     \cup Cl("the zones", Len(H.slices) = Len(F.zones) /\ {H.slices[k][1] : k \in DOMAIN H.slices} = {F.zones[k][1] : k \in DOMAIN F.zones})
     \cup Cl("the nodes of a zone", \A k \in DOMAIN H.slices, z \in Range(F.zones) : z[1] = H.slices[k][1] =>
                Ascending(H.slices[k][2]) /\ Range(H.slices[k][2]) = ZoneNodes(F, z))
     \cup Cl("the face fields", Len(H.ff) = Len(F.ff) /\ Range(H.ff) = Range(F.ff))
     \cup Cl("the partition", H.part = F.part)
     \cup Cl("the step", H.step = F.step)
     \cup Cl("the names of the state", Range(H.wgt) = Range(F.wgt))
     \cup Cl("the data", Len(H.cd) = Len(F.cd) /\ Len(H.nd) = Len(F.nd) /\ Range(H.cd) = Range(F.cd) /\ Range(H.nd) = Range(F.nd)))
\* what an exported mesh holds (M); over: its numbers were set to 77 since; bare: its cell data were taken out; moved: it was scaled
Kept(F, s, M) == Cl("the mesh given: cells", M.ncell = NCell(F)) \cup Cl("the mesh given: nodes", M.nnode = F.no)
  \cup Cl("the mesh given: coordinates", s.moved \/ M.xyz = F.xyz) \cup
  (IF ~Restart(F) THEN {}
   ELSE UNION {Cl("the mesh given: " \o k, M.num[k] = IF s.over /\ k \in {"nfa_b", "nboco"} THEN 77 ELSE Numbers(F)[k]) : k \in DOMAIN Numbers(F)}
     \cup Cl("the mesh given: faces", M.faces = F.faces)
     \cup Cl("the mesh given: data", Range(M.cd) = (IF s.bare THEN {} ELSE Range(F.cd)) /\ Range(M.nd) = Range(F.nd))
     \cup Cl("the mesh given: names of the state", Range(M.wgt) = Range(F.wgt))
     \cup Cl("the mesh given: step", M.step = F.step))
\* the machine: files in places (cur: place -> file), readers [p, f] (f = 0: nothing read yet), meshes [f, over, bare]
Start(cur) == [cur |-> cur, rd |-> <<>>, ms |-> <<>>]
Op(st, e) ==
  CASE e.op = "open" -> [st EXCEPT !.rd = Append(@, [p |-> e.x, f |-> 0])]
    [] e.op = "read" -> [st EXCEPT !.rd[e.x].f = st.cur[st.rd[e.x].p]]
    [] e.op = "rewrite" -> [st EXCEPT !.cur[e.x] = e.f]
    [] e.op = "export" -> [st EXCEPT !.ms = Append(@, [f |-> st.rd[e.x].f, over |-> FALSE, bare |-> FALSE, moved |-> FALSE])]
    [] e.op = "params" -> [st EXCEPT !.ms[e.x].over = TRUE]
    [] e.op = "pop" -> [st EXCEPT !.ms[e.x].bare = TRUE]
    [] e.op = "scale" -> [st EXCEPT !.ms[e.x].moved = TRUE]
    [] OTHER -> st
=============================================================================
