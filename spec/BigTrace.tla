------------------------------- MODULE BigTrace --------------------------------
(* The same guarantees on boxes of more nodes and faces than 16 bits can count:
   values are digests of canonical forms (faces as sorted rows: walk from its
   least node, first cell, second cell; marks as sets of these rows), so equal
   digests are equal values.  Counts follow from the sizes of the box.
     e.dims, e.n: numbers of nodes, cells, internal and boundary faces
     e.pairs: <<name, what it must be, what it is>>                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TraceLib
VARIABLES c, l
BCl(t, p) == IF p THEN {} ELSE {t}
Nodes(d) == (d[1] + 1) * (d[2] + 1) * (d[3] + 1)
Bnd(d) == 2 * (d[1] * d[2] + d[2] * d[3] + d[1] * d[3])
Fails(e) ==
  IF e.exc # "" THEN {"fails at this size: " \o e.exc} ELSE
  BCl("numbers of nodes, cells, internal and boundary faces", e.n = <<>> \/ e.n = <<Nodes(e.dims), e.dims[1] * e.dims[2] * e.dims[3], (6 * e.dims[1] * e.dims[2] * e.dims[3] - Bnd(e.dims)) \div 2, Bnd(e.dims)>>)
  \cup {"not the same at this size: " \o e.pairs[k][1] : k \in {k \in DOMAIN e.pairs : e.pairs[k][2] # e.pairs[k][3]}}
  \cup BCl("nothing compared", Len(e.pairs) > 0)
Init == c \in DOMAIN Cases /\ l = 0
Next == /\ l < Len(Cases[c].ev)
        /\ LET f == Fails(Cases[c].ev[l + 1]) IN
           IF f # {} THEN l' = Len(Cases[c].ev) + 1 /\ Verdict("FAIL", Cases[c].id, l + 1, f)
           ELSE l' = l + 1 /\ (l' = Len(Cases[c].ev) => Verdict("DONE", Cases[c].id, l', {}))
        /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
