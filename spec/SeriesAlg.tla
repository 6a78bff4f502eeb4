------------------------------- MODULE SeriesAlg -------------------------------
(* Design of the reading of a series: files are compared to the first one; when they are
   not coincident in order, each cell looks for the nearest cell of the first file, and the
   values are placed by the inverse of this index.  All series of two and three files of at
   most N cells, cells missing or repeated, displaced by less or more than the tolerance.
   Cells of the ground are far from each other: the nearest cell is the one of the same
   place, or (place absent) any cell, at a distance above the tolerance.            *)
EXTENDS SeriesRel
CONSTANTS N, NF, Disp
NoShift == {0}
Shifts == {0, 1, 9}
VARIABLES files, k, ph, idx, got, exc
vars == <<files, k, ph, idx, got, exc>>
T == 4
AllSeqs(S, n) == UNION {[1..m -> S] : m \in 1..n}

File(c, f) == [here |-> TRUE, cells |-> c, nodes |-> c, time |-> <<>>, fields |-> << <<"P", [j \in DOMAIN c |-> <<f, j>>]>> >>]
Firsts == {[i \in 1..n |-> <<i, <<0, 0, 0>>>>] : n \in 1..N}
Others == AllSeqs({<<p, <<d, 0, 0>>>> : p \in 1..N, d \in Disp}, N)
Init == /\ \E c \in Firsts : files = <<File(c, 1)>>
        /\ k = 1 /\ ph = "files" /\ idx = <<>> /\ got = <<>> /\ exc = ""
AddFile == /\ ph = "files" /\ Len(files) < NF /\ \E c \in Others : files' = Append(files, File(c, Len(files) + 1))
           /\ UNCHANGED <<k, ph, idx, got, exc>>
Begin == ph = "files" /\ Len(files) = NF /\ ph' = "compare" /\ UNCHANGED <<files, k, idx, got, exc>>
Cur == files[k]
Ref == files[1].cells
Refuse == exc' = "ValueError" /\ ph' = "end" /\ UNCHANGED <<files, k, idx, got>>
Compare == /\ ph = "compare"
           /\ IF Len(Cur.cells) # Len(Ref) THEN Refuse ELSE
              /\ ph' = IF Coincident(Ref, Cur.cells, T) THEN "keep" ELSE "locate"
              /\ UNCHANGED <<files, k, idx, got, exc>>
\* index[j]: nearest cell of the first file to cell j
Nearest(j) == {i \in DOMAIN Ref : Ref[i][1] = Cur.cells[j][1]}
Locate == /\ ph = "locate"
          /\ IF \E j \in DOMAIN Cur.cells : Nearest(j) = {} \/ ~Near(Ref[CHOOSE i \in Nearest(j) : TRUE], Cur.cells[j], T) THEN Refuse ELSE
             /\ idx' = [j \in DOMAIN Cur.cells |-> CHOOSE i \in Nearest(j) : TRUE]
             /\ ph' = "invert" /\ UNCHANGED <<files, k, got, exc>>
Invert == /\ ph = "invert"
          /\ IF Cardinality(SetOf(idx)) # Len(idx) THEN Refuse ELSE
             /\ idx' = [i \in DOMAIN Ref |-> CHOOSE j \in DOMAIN idx : idx[j] = i]
             /\ ph' = "place" /\ UNCHANGED <<files, k, got, exc>>
Store(rows) == /\ got' = Append(got, [time |-> Cur.time, fields |-> << <<"P", rows>> >>])
               /\ IF k = Len(files) THEN ph' = "end" /\ UNCHANGED k ELSE ph' = "compare" /\ k' = k + 1
               /\ UNCHANGED <<files, idx, exc>>
Keep == ph = "keep" /\ Store(ValueOf(Cur.fields, "P"))
Put == ph = "place" /\ Store([i \in DOMAIN Ref |-> ValueOf(Cur.fields, "P")[idx[i]]])
Next == AddFile \/ Begin \/ Compare \/ Locate \/ Invert \/ Keep \/ Put
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == ph = "end" => ReadFails(files, <<>>, T, exc, got) = {}
Aligned == \A m \in DOMAIN got : OneFails(files[1], files[m], <<>>, T, got[m]) = {}
Ends == <>(ph = "end")
=============================================================================
