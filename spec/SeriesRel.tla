------------------------------- MODULE SeriesRel -------------------------------
(* A series of VTK files.  A file is
     cells   sequence of <<place, displacement>>   place: which cell of the ground, displacement in units
     nodes   the same for the points, in the order of the file
     fields  sequence of <<name, rows>>            rows[j] is the value of cell j
     time    sequence of tokens, empty if there is no time
   Two cells (or points) coincide if they have the same place and are closer than the
   tolerance: the squared distance of their displacements is at most T.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Cl(name, ok) == IF ok THEN {} ELSE {name}
SetOf(s) == {s[i] : i \in DOMAIN s}
Sq(x) == x * x
Near(a, b, T) == a[1] = b[1] /\ Sq(a[2][1] - b[2][1]) + Sq(a[2][2] - b[2][2]) + Sq(a[2][3] - b[2][3]) <= T
Coincident(a, b, T) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], T)
\* the same cells in any order: one cell of b for each cell of a and conversely
Matched(a, b, T) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Cardinality({j \in DOMAIN b : Near(a[i], b[j], T)}) = 1
Place(a, b, T, i) == CHOOSE j \in DOMAIN b : Near(a[i], b[j], T)

Names(d) == {d[i][1] : i \in DOMAIN d}
ValueOf(d, n) == (CHOOSE x \in SetOf(d) : x[1] = n)[2]

Readable(files, T) == \A k \in DOMAIN files : files[k].here /\ Matched(files[1].cells, files[k].cells, T)
Wanted(file, filter) == IF filter = <<>> THEN Names(file.fields) ELSE SetOf(filter) \cap Names(file.fields)
Known(files, filter) == \A k \in DOMAIN files : SetOf(filter) \subseteq Names(files[k].fields)
OneFails(first, file, filter, T, got) ==
  IF Names(got.fields) # Wanted(file, filter) \/ Len(got.fields) # Cardinality(Names(got.fields)) THEN {"exactly the fields asked for"} ELSE
  Cl("values are in the order of the cells of the first file",
     \A n \in Names(got.fields) : LET v == ValueOf(got.fields, n) w == ValueOf(file.fields, n) IN
        Len(v) = Len(first.cells) /\ \A i \in DOMAIN v : v[i] = w[Place(first.cells, file.cells, T, i)])
  \cup Cl("time of the file", got.time = file.time)
ReadFails(files, filter, T, exc, got) ==
  IF exc # "" THEN Cl("a correct series is refused", ~(Readable(files, T) /\ Known(files, filter))) ELSE
  IF ~Readable(files, T) THEN {"a series that does not coincide is accepted"} ELSE
  IF Len(got) # Len(files) THEN {"one set of data per file"} ELSE
  UNION {OneFails(files[1], files[k], filter, T, got[k]) : k \in DOMAIN files}
\* the order check
CheckFails(files, pos, T, exc, ret) ==
  IF \E k \in DOMAIN files : ~files[k].here THEN Cl("a missing file is accepted", exc # "") ELSE
  Cl("the order check tells whether the files are coincident in order",
     exc = "" /\ ret = \A k \in DOMAIN files : IF pos = "node" THEN Coincident(files[1].nodes, files[k].nodes, T) ELSE Coincident(files[1].cells, files[k].cells, T))
ExistFails(files, exc, ret) == Cl("whether all files exist", exc = "" /\ ret = \A k \in DOMAIN files : files[k].here)
=============================================================================
