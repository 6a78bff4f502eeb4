-------------------------------- MODULE Hist ---------------------------------
(* A process and the objects it holds.  An object is known by the term of the
   operations it results from, written as a path: open:g3/export/prep/write:2
   The property: what an object holds depends on its term only, whatever else
   the process did; an operation changes the object it is applied to and no
   other one.
     make    open:f cube:n user:n cli2:f cli3:f clivtk:f   a new object from nothing but a file
     new     export write:v vtk extrude openf again:v       a new object from object x
             (again: by way of a file which takes the place of the former one)
     change  derive prep reread unmark retype param pop popcell part scale move    object x    *)
EXTENDS Naturals, Sequences, TLC
Makers == {"open", "cube", "user", "cli2", "cli3", "clivtk"}
News == {"export", "vtk", "extrude", "openf", "write", "again"}
Changes == {"derive", "prep", "reread", "unmark", "retype", "param", "pop", "popcell", "part", "scale", "move"}
Name(e) == IF e.a = "" THEN e.op ELSE e.op \o ":" \o e.a
\* operations that change nothing when repeated
Idle(o, e) == (e.op = "prep" /\ o.last \in {"prep"}) \/ (e.op = "derive" /\ o.last = "derive") \/ e.op = "reread"
             \/ (e.op = "part" /\ o.last = "part")
Put(o, e) == IF Idle(o, e) THEN o ELSE [o EXCEPT !.t = @ \o "/" \o Name(e), !.last = e.op]
Prep == [op |-> "prep", a |-> ""]
KindOf(e) == CASE e.op \in {"cli2", "cli3", "clivtk", "write"} -> "file" [] e.op \in {"open", "openf"} -> "reader" [] e.op = "again" -> IF e.a = "v" THEN "grid" ELSE "reader" [] e.op = "vtk" -> "grid" [] OTHER -> "mesh"
\* the objects after an operation; a written mesh is prepared (versions 2, 3 and 4 alike)
After(s, e) ==
  IF e.op \in Makers THEN Append(s, [k |-> KindOf(e), t |-> Name(e), last |-> e.op])
  ELSE LET o == s[e.x] IN
    CASE e.op \in News -> LET p == IF e.op \in {"write", "again"} /\ e.a # "v" THEN Put(o, Prep) ELSE o
                          IN Append([s EXCEPT ![e.x] = p], [k |-> KindOf(e), t |-> p.t \o "/" \o Name(e), last |-> e.op])
      [] OTHER -> [s EXCEPT ![e.x] = Put(o, e)]
=============================================================================
