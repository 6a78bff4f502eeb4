-------------------------------- MODULE VtkDump --------------------------------
(* Design of the dumps.  The cells of a grid come in any order; its dictionary of cells groups
   them by type in the order of the VTK codes, the file lists tables in the order of the names.
   The mesh taken from the grid keeps the number of each cell; data are put in the order of the
   tables; a grid made again from the tables can be dumped again.                    *)
EXTENDS VtkRel, SequencesExt
CONSTANTS N
Kinds == <<"hexa8", "pyra5", "tetra4">>       \* by name
Codes == <<"tetra4", "hexa8", "pyra5">>       \* by VTK code
VARIABLES grid, first, ph, tables, index, h, x, round
vars == <<grid, first, ph, tables, index, h, x, round>>
Init == grid = [points |-> <<"p">>, cells |-> <<>>, fields |-> <<>>, time |-> <<>>] /\ first = <<>> /\ ph = "grid" /\ tables = <<>> /\ index = <<>> /\ h = <<>> /\ x = <<>> /\ round = 1
Add == /\ ph = "grid" /\ Len(grid.cells) < N
       /\ \E t \in SetOf(Kinds) : grid' = [grid EXCEPT !.cells = Append(@, <<t, <<Len(grid.cells)>>>>)]
       /\ UNCHANGED <<first, ph, tables, index, h, x, round>>
Start == /\ ph = "grid" /\ grid.cells # <<>> /\ ph' = "group" /\ grid' = [grid EXCEPT !.fields = <<<<"f", [k \in DOMAIN grid.cells |-> grid.cells[k][2]]>>>>]
         /\ first' = grid' /\ UNCHANGED <<tables, index, h, x, round>>
Numbers(t) == SelectSeq([k \in DOMAIN grid.cells |-> k], LAMBDA k : grid.cells[k][1] = t)
Group == /\ ph = "group" /\ ph' = "write"
         /\ LET ts == SelectSeq(Codes, LAMBDA t : Numbers(t) # <<>>) IN
            tables' = [k \in DOMAIN ts |-> <<ts[k], [m \in DOMAIN Numbers(ts[k]) |-> grid.cells[Numbers(ts[k])[m]][2]]>>] /\ index' = [k \in DOMAIN ts |-> Numbers(ts[k])]
         /\ UNCHANGED <<grid, first, h, x, round>>
ByName(s) == LET ns == SelectSeq(Kinds, LAMBDA t : \E k \in DOMAIN tables : tables[k][1] = t) IN
  [m \in DOMAIN ns |-> s[CHOOSE k \in DOMAIN tables : tables[k][1] = ns[m]]]
Write == /\ ph = "write" /\ ph' = "xmf"
         /\ LET ord == FlattenSeq(ByName(index)) IN
            h' = [kind |-> "datalist", meshtype |-> "unsmesh", nodes |-> grid.points, tables |-> ByName(tables),
                  steps |-> <<[fields |-> [k \in DOMAIN grid.fields |-> <<grid.fields[k][1], [m \in DOMAIN ord |-> grid.fields[k][2][ord[m]]]>>], time |-> <<>>]>>]
         /\ UNCHANGED <<grid, first, tables, index, x, round>>
Xmf == /\ ph = "xmf" /\ ph' = "done"
       /\ x' = [valid |-> TRUE, refs |-> <<>>, grids |-> <<[topologies |-> 1, elements |-> Len(Flat(h.tables)), points |-> h.nodes, cells |-> Flat(h.tables), fields |-> h.steps[1].fields]>>]
       /\ UNCHANGED <<grid, first, tables, index, h, round>>
\* the dump is taken as a grid and dumped again
Again == /\ ph = "done" /\ round < 2 /\ round' = round + 1 /\ ph' = "group"
         /\ grid' = [grid EXCEPT !.cells = Flat(h.tables), !.fields = h.steps[1].fields]
         /\ UNCHANGED <<first, tables, index, h, x>>
Next == Add \/ Start \/ Group \/ Write \/ Xmf \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Dumped == (ph = "done") => SeriesFails(<<first>>, <<>>, h) = {}
Seen == (ph = "done") => XmfFails(<<first>>, <<>>, x) = {}
Stable == (ph = "done" /\ round = 2) => Flat(h.tables) = grid.cells
Ends == <>(ph = "done" /\ round = 2)
=============================================================================
