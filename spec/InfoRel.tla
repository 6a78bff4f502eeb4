------------------------------- MODULE InfoRel --------------------------------
(* What a report on a mesh or on a file has to say.  A report is a record
     nnode, ncell, nface   the numbers printed
     axes     for x, y, z: <<smallest, mean, largest>> in thousandths
     cells    <<[t, n, m, ix]>>   elements of a type: number, nodes of each, their numbers
     faces    <<[kind, types, blocks]>>   the same for each set of faces
     bocos    the words of the list of marks;  marks  <<[name, geodim, ix]>>
     params   names of the parameters
   ix is the summary of a list of numbers: [kind |-> "range", lo, hi, n] or "list" or "empty",
   n = -1 where the text does not say how many.
   stats: lines <<label, smallest, mean, largest>> in thousandths; the facts are
   <<label, values in quarters>>.                                                      *)
EXTENDS MeshState
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE LET h == Len(s) \div 2 IN
             IF Len(s) = 1 THEN s[1] ELSE SumSeq(SubSeq(s, 1, h)) + SumSeq(SubSeq(s, h + 1, Len(s)))
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Dist(x) == IF x < 0 THEN -x ELSE x
\* vals in units of 1000/u thousandths; the mean is rounded to a thousandth
Stat(t, vals, u) == /\ vals # <<>> /\ t[1] = u * MinOf(SetOfSeq(vals)) /\ t[3] = u * MaxOf(SetOfSeq(vals))
                    /\ Dist(t[2] * Len(vals) - u * SumSeq(vals)) <= Len(vals)
\* a summary of the numbers of a sequence
Tells(ix, s) == CASE ix.kind = "empty" -> s = <<>>
                  [] s = <<>> -> ix.kind = "range" /\ ix.lo = ix.hi + 1
                  [] ix.kind = "range" -> SetOfSeq(s) = ix.lo..ix.hi /\ Len(s) = ix.hi - ix.lo + 1
                  [] ix.kind = "list" -> ix.lo = MinOf(SetOfSeq(s)) /\ ix.hi = MaxOf(SetOfSeq(s)) /\ ix.n = Len(s)
                  [] OTHER -> FALSE
\* marks read from a file may name a node twice (once for each kind of face)
TellsSet(ix, s) == IF ix.kind = "list" /\ s # <<>> THEN ix.lo = MinOf(SetOfSeq(s)) /\ ix.hi = MaxOf(SetOfSeq(s)) /\ ix.n \in Len(s)..(4 * Len(s)) ELSE Tells(ix, s)
NumsOf(els, t) == LET q == SelectSeq(els, LAMBDA e : e[2] = t) IN [k \in DOMAIN q |-> q[k][1]]
TypesOf(els) == {els[k][2] : k \in DOMAIN els}
BlocksTell(bs, els) == /\ NoDup([k \in DOMAIN bs |-> bs[k].t]) /\ TypesOf(els) \subseteq {bs[k].t : k \in DOMAIN bs}   \* a block may hold nothing
                       /\ \A k \in DOMAIN bs : LET s == NumsOf(els, bs[k].t) IN
                          /\ bs[k].n = Len(s) /\ Tells(bs[k].ix, s)
                          /\ \A i \in DOMAIN els : els[i][2] = bs[k].t => Len(els[i][3]) = bs[k].m
\* what a detailed report lists: numbers and nodes of the elements, in the same order
Listed(b, els) == b.idx = <<>> \/ ( /\ Len(b.idx) = b.n /\ (b.els # <<>> => Len(b.els) = b.n)
   /\ \A k \in DOMAIN b.idx : \E e \in SetOfSeq(els) : e[1] = b.idx[k] /\ e[2] = b.t /\ (b.els # <<>> => e[3] = b.els[k]))
AxesTell(axes, pts) == Len(axes) = 3 /\ \A a \in 1..3 : Stat(axes[a], [k \in DOMAIN pts |-> pts[k][a]], 125)
KindOf(m, k) == CASE k = "internal" -> m.int [] k = "boundary" -> m.bnd [] k = "mixed" -> m.mix [] OTHER -> [has |-> FALSE, f |-> <<>>, c |-> <<>>]
RECURSIVE Words(_)
Words(ms) == IF ms = <<>> THEN <<>> ELSE ms[1].words \o Words(Tail(ms))
MarkTells(x, m) == x.name = m.name /\ x.geodim = m.geodim /\ Tells(x.ix, m.index)
\* the report r of the mesh m, held in memory; pts: its nodes in eighths
MeshTold(m, pts, r) ==
  Cl("the numbers of nodes and cells", r.nnode = m.nnode /\ r.ncell = m.ncell)
  \cup Cl("the number of faces", r.nface = m.nface)
  \cup Cl("the extent of the nodes", AxesTell(r.axes, pts))
  \cup Cl("the cells, type by type", BlocksTell(r.cells, m.cells))
  \cup Cl("the sets of faces", /\ NoDup([k \in DOMAIN r.faces |-> r.faces[k].kind])
                               /\ {r.faces[k].kind : k \in DOMAIN r.faces} = {k \in {"internal", "boundary", "mixed"} : KindOf(m, k).has})
  \cup Cl("the faces of a set, type by type", \A k \in DOMAIN r.faces : LET f == r.faces[k] T == KindOf(m, f.kind).f IN
          /\ BlocksTell(f.blocks, T) /\ SetOfSeq(f.types) = {f.blocks[i].t : i \in DOMAIN f.blocks} /\ NoDup(f.types) /\ \A i \in DOMAIN f.blocks : Listed(f.blocks[i], T))
  \cup Cl("the list of marks", r.bocos = Words(m.marks))
  \cup Cl("the marks", Len(r.marks) = Len(m.marks) /\ \A k \in DOMAIN m.marks : \E x \in SetOfSeq(r.marks) : MarkTells(x, m.marks[k]))
  \cup Cl("the parameters", SetOfSeq(r.params) = SetOfSeq(m.params))
\* the report of a mesh whose file holds the facts f
FileTold(f, r) ==
  Cl("the numbers of nodes and cells of the file", r.nnode = Len(f.pts) /\ r.ncell = f.ncell)
  \cup Cl("the extent of the nodes of the file", AxesTell(r.axes, f.pts))
  \cup Cl("the cells of the file, type by type", {<<r.cells[k].t, r.cells[k].n>> : k \in DOMAIN r.cells} = SetOfSeq(f.types))
  \cup Cl("the faces of the file, type by type", f.faces = <<>> \/ ( /\ r.nface = SumSeq([k \in DOMAIN f.faces |-> f.faces[k][2]])
          /\ Len(r.faces) = 1 /\ {<<r.faces[1].blocks[k].t, r.faces[1].blocks[k].n>> : k \in DOMAIN r.faces[1].blocks} = SetOfSeq(f.faces)))
  \cup Cl("the marks of the file", /\ {x.name : x \in SetOfSeq(r.marks)} = {x.name : x \in SetOfSeq(f.marks)} /\ Len(r.marks) = Len(f.marks)
          /\ \A x \in SetOfSeq(f.marks) : x.index = <<>> \/ \E y \in SetOfSeq(r.marks) : y.name = x.name /\ TellsSet(y.ix, x.index))
\* one line for each field (each component of a vector), and no other
StatsTold(facts, lines) ==
  Cl("one line for each field", Len(lines) = Len(facts) /\ \A k \in DOMAIN facts : Cardinality({i \in DOMAIN lines : lines[i][1] = facts[k][1]}) = Cardinality({i \in DOMAIN facts : facts[i][1] = facts[k][1]}))
  \cup Cl("smallest, mean and largest of each field", \A k \in DOMAIN facts : \E i \in DOMAIN lines : lines[i][1] = facts[k][1] /\ Stat(<<lines[i][2], lines[i][3], lines[i][4]>>, facts[k][2], 250))
\* headers of a file of versions 2 and 3: those of the file, in its order (with its end or without)
SecsTold(file, out) ==
  LET cut(s) == IF s # <<>> /\ s[Len(s)].end THEN SubSeq(s, 1, Len(s) - 1) ELSE s
      plain(s) == [k \in DOMAIN s |-> [x \in {"name", "id", "skip", "hsize", "idata", "rdata"} |-> s[k][x]]] IN
  Cl("the sections of the file", [k \in DOMAIN cut(file) |-> cut(file)[k].name] = [k \in DOMAIN cut(out) |-> cut(out)[k].name])
  \cup Cl("the content of each header", plain(cut(file)) = plain(cut(out)))
  \cup Cl("the kind of each section", \A k \in DOMAIN out : k \in DOMAIN file => (file[k].kind = "" \/ file[k].kind \in SetOfSeq(out[k].kinds)))
\* a grid of VTK: numbers, extent (thousandths, exact), names of the data
GridTold(g, r) ==
  Cl("the numbers of cells and points", r.ncell = g.ncell /\ r.nnode = Len(g.pts))
  \cup Cl("the bounds", Len(r.bounds) = 3 /\ \A a \in 1..3 : LET v == {125 * g.pts[k][a] : k \in DOMAIN g.pts} IN r.bounds[a] = <<MinOf(v), MaxOf(v)>>)
  \cup Cl("the names of the data", r.cell = g.cell /\ r.point = g.point /\ r.field = g.field)
\* what a conversion says it removed: asked is <<where, name>> in the order of the removal, held the names of each place
Removal(asked, cell, node) == [k \in DOMAIN asked |-> <<asked[k][1], asked[k][2],
   asked[k][2] \in SetOfSeq(IF asked[k][1] = "cell" THEN cell ELSE node) /\ \A i \in 1..(k - 1) : asked[i] # asked[k]>>]
\* a command that prints
Printed(e) == Cl("a command that prints fails", e.exc = "") \cup Cl("files are created or changed", e.same /\ e.new = <<>>)
              \cup Cl("the command does not succeed", e.exc # "" \/ e.ret = "True")
=============================================================================
