-------------------------------- MODULE VtkRel --------------------------------
(* Meshes, VTK grids and their HDF5 and XMF dumps.
   mesh or grid  [points, cells, fields]   points: tokens;  cells: <<type, nodes>>, cell k of
                 the sequence is the cell of number k;  fields: <<name, rows>>, rows[k] of cell k
   HDF5 dump     [kind, meshtype, nodes, tables, steps]   tables: <<type, <<nodes of each cell>> >>
                 in the order of the file;  steps: [fields, time]
   XMF file      [grids, refs]  refs: [found, said, size] of each reference, grids: what a reader
                 of XDMF sees, [topologies, elements, points, cells, fields]               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Cl(name, ok) == IF ok THEN {} ELSE {name}
SetOf(s) == {s[i] : i \in DOMAIN s}
Times(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in SetOf(a) : Times(a, x) = Times(b, x)
RECURSIVE Flat(_)
Flat(t) == IF t = <<>> THEN <<>> ELSE [k \in DOMAIN Head(t)[2] |-> <<Head(t)[1], Head(t)[2][k]>>] \o Flat(Tail(t))
Types(cells) == {cells[k][1] : k \in DOMAIN cells}
At(cells, x) == CHOOSE k \in DOMAIN cells : cells[k] = x
Names(d) == {d[i][1] : i \in DOMAIN d}
ValueOf(d, n) == (CHOOSE x \in SetOf(d) : x[1] = n)[2]

\* the same mesh, cells in any order
MeshFails(a, b) == Cl("points", a.points = b.points) \cup Cl("cells of the same type with the same nodes", SameBag(a.cells, b.cells))
\* the same grid
GridFails(a, b) == Cl("points", a.points = b.points) \cup Cl("cells, in order", a.cells = b.cells) \cup
                   Cl("fields", Len(a.fields) = Len(b.fields) /\ SetOf(a.fields) = SetOf(b.fields))
ExportFails(g, got) == Cl("points", g.points = got.points) \cup Cl("cells of the same type with the same nodes", SameBag(g.cells, got.cells)) \cup
                       Cl("cells are numbered as in the grid", g.cells = got.cells) \cup Cl("numbers of cells and nodes", got.n = <<Len(g.cells), Len(g.points)>>)
HdfFails(g, h) ==
  Cl("kind of file", h.meshtype = "unsmesh") \cup Cl("node coordinates", h.nodes = g.points) \cup
  Cl("one table per type of cell", Len(h.tables) = Cardinality(Types(g.cells)) /\ {h.tables[k][1] : k \in DOMAIN h.tables} = Types(g.cells)) \cup
  Cl("cells of the tables", SameBag(Flat(h.tables), g.cells))

Wanted(g, filter) == IF filter = <<>> THEN Names(g.fields) ELSE SetOf(filter) \cap Names(g.fields)
\* fields d on cells c are those of g
Carried(g, names, c, d) ==
  IF Names(d) # names \/ Len(d) # Cardinality(names) THEN {"exactly the fields asked for"} ELSE
  Cl("values line up with the cells", \A n \in names : LET v == ValueOf(d, n) w == ValueOf(g.fields, n) IN
     Len(v) = Len(c) /\ \A k \in DOMAIN c : v[k] = w[At(g.cells, c[k])])
SeriesFails(gs, filter, h) ==
  Cl("kind of file", h.kind = "datalist") \cup
  LET m == HdfFails(gs[1], h) IN IF m # {} THEN m ELSE
  IF Len(h.steps) # Len(gs) THEN {"one set of data per file"} ELSE
  UNION {Carried(gs[k], Wanted(gs[k], filter), Flat(h.tables), h.steps[k].fields) \cup Cl("time of the file", h.steps[k].time = gs[k].time) : k \in DOMAIN gs}
XmfFails(gs, filter, x) ==
  Cl("the file is valid XML", x.valid) \cup
  Cl("references exist", \A r \in SetOf(x.refs) : r.found) \cup Cl("sizes are exact", \A r \in SetOf(x.refs) : r.found => r.said = r.size) \cup
  IF Len(x.grids) # Len(gs) THEN {"one grid per file"} ELSE
  UNION {LET g == x.grids[k] IN
     IF ~(g.topologies = 1 /\ g.elements = Len(gs[1].cells) /\ g.points = gs[1].points /\ SameBag(g.cells, gs[1].cells)) THEN {"mesh seen by an XDMF reader"}
     ELSE Carried(gs[k], Wanted(gs[k], filter), g.cells, g.fields) : k \in DOMAIN gs}
\* data given for a mesh: nodal values stay as they are
ListFails(m, given, nodal, h) ==
  Cl("kind of file", h.kind = "datalist") \cup
  LET f == HdfFails(m, h) IN IF f # {} THEN f ELSE
  IF Len(h.steps) # Len(given) THEN {"one set of data per file"} ELSE
  UNION {(IF nodal THEN Cl("nodal values", Len(h.steps[k].fields) = Len(given[k].fields) /\ SetOf(h.steps[k].fields) = SetOf(given[k].fields))
          ELSE Carried([cells |-> m.cells, fields |-> given[k].fields], Names(given[k].fields), Flat(h.tables), h.steps[k].fields))
         \cup Cl("time given", h.steps[k].time = given[k].time) : k \in DOMAIN given}

\* six times the volume of a cell whose corners are on a lattice
Det(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2]) - a[2] * (b[1] * c[3] - b[3] * c[1]) + a[3] * (b[1] * c[2] - b[2] * c[1])
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Tet(p, s) == Det(Minus(p[s[2]], p[s[1]]), Minus(p[s[3]], p[s[1]]), Minus(p[s[4]], p[s[1]]))
Split(t) == CASE t = "tetra4" -> <<<<1, 2, 3, 4>>>>
              [] t = "pyra5" -> <<<<1, 2, 3, 5>>, <<1, 3, 4, 5>>>>
              [] t = "prism6" -> <<<<1, 2, 3, 4>>, <<2, 3, 4, 5>>, <<3, 4, 5, 6>>>>
              [] t = "hexa8" -> <<<<1, 2, 4, 5>>, <<2, 3, 4, 7>>, <<5, 7, 6, 2>>, <<5, 8, 7, 4>>, <<2, 4, 5, 7>>>>
              [] OTHER -> <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumAbs(_, _)
SumAbs(p, s) == IF s = <<>> THEN 0 ELSE Abs(Tet(p, Head(s))) + SumAbs(p, Tail(s))
Volume6(lat, cell) == SumAbs([k \in DOMAIN cell[2] |-> lat[cell[2][k] + 1]], Split(cell[1]))
VolumeFails(cells, lat, got) == Cl("volume of each cell", Len(got) = Len(cells) /\ \A k \in DOMAIN got : got[k] = Volume6(lat, cells[k]))
=============================================================================
