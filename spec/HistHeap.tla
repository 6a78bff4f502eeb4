------------------------------ MODULE HistHeap --------------------------------
(* Design of C16: objects made of cells of a heap, and the face table by which
   faces are derived.  Making an object out of another one copies its cells or
   shares them (Shared: the fields handed over by reference); the face table
   belongs to the process (Global) or to the object.  want is the value each
   object has by its own operations alone.  Interference may be seen only if
   something is shared or global -- and then it is (action Seen).              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxObjs, MaxOps
Fields == {"params", "data", "marks", "coords"}
Sources == {"gmsh", "other"}
Table(f) == IF f = "gmsh" THEN "gmsh" ELSE "cgns"
VARIABLES shared, global,  \* the design
          objs, heap, table, want, n, seen
vars == <<shared, global, objs, heap, table, want, n, seen>>
Init == /\ shared \in SUBSET Fields /\ Cardinality(shared) <= 1 /\ global \in BOOLEAN
        /\ objs = <<>> /\ heap = <<>> /\ table = "cgns" /\ want = <<>> /\ n = 0 /\ seen = FALSE
Order == <<"params", "data", "marks", "coords">>
At(base) == [f \in Fields |-> base + (CHOOSE i \in 1..4 : Order[i] = f)]
Room == Len(objs) < MaxObjs /\ n < MaxOps /\ ~seen
Step == n' = n + 1 /\ UNCHANGED <<shared, global, seen>>
Open == /\ Room /\ Step
        /\ \E f \in Sources :
           /\ objs' = Append(objs, [cells |-> At(Len(heap)), own |-> Table(f), faces |-> ""])
           /\ heap' = heap \o [i \in 1..4 |-> <<>>]
           /\ want' = Append(want, [cells |-> [k \in Fields |-> <<>>], own |-> Table(f), faces |-> ""])
           /\ table' = IF global /\ f = "gmsh" THEN "gmsh" ELSE table
\* export, conversion: a new object out of x
Export == /\ Room /\ Step
          /\ \E x \in DOMAIN objs :
             LET new == At(Len(heap)) o == objs[x] IN
             /\ objs' = Append(objs, [o EXCEPT !.cells = [f \in Fields |-> IF f \in shared THEN o.cells[f] ELSE new[f]]])
             /\ heap' = heap \o [i \in 1..4 |-> heap[o.cells[Order[i]]]]
             /\ want' = Append(want, want[x])
          /\ UNCHANGED table
Change == /\ n < MaxOps /\ ~seen /\ Step
          /\ \E x \in DOMAIN objs, f \in Fields :
             /\ heap' = [heap EXCEPT ![objs[x].cells[f]] = Append(@, "c")]
             /\ want' = [want EXCEPT ![x].cells[f] = Append(@, "c")]
          /\ UNCHANGED <<objs, table>>
\* derivation is done once: preparing or writing again does nothing
Derive == /\ n < MaxOps /\ ~seen /\ Step
          /\ \E x \in DOMAIN objs :
             /\ objs' = IF objs[x].faces # "" THEN objs ELSE [objs EXCEPT ![x].faces = IF global THEN table ELSE objs[x].own]
             /\ want' = [want EXCEPT ![x].faces = want[x].own]
          /\ UNCHANGED <<heap, table>>
Value(x) == [cells |-> [f \in Fields |-> heap[objs[x].cells[f]]], own |-> objs[x].own, faces |-> objs[x].faces]
Differ == \E x \in DOMAIN objs : Value(x) # want[x]
Seen == /\ ~seen /\ Differ /\ seen' = TRUE /\ UNCHANGED <<shared, global, objs, heap, table, want, n>>
Next == Open \/ Export \/ Change \/ Derive \/ Seen
Spec == Init /\ [][Next]_vars
NonInterference == Differ => (shared # {} \/ global)
OneEach == (shared = {}) => \A x, y \in DOMAIN objs, f, h \in Fields : (x # y \/ f # h) => objs[x].cells[f] # objs[y].cells[h]
=============================================================================
