---------------------------------- MODULE ZRel ----------------------------------
(* Averaging along a transverse direction.  A cell is
     [t type, p points (tokens), n their numbers, col place in the plane, d displacement in the plane, z transverse position]
   z is an integer; positions closer than the tolerance have the same z.  d is in units of
   one eighth of the tolerance.  Statistics are compared on integers:
     avg  mean * n      rms  rms * n * 16      amp  amplitude * sqrt(n) * 16
     pha  <<amp * cos, amp * sin>>, same units   (n: number of planes)
   cos, sin: tables of cos(2 pi m / n), sin, times 16384, for m in 0..n-1                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Cl(name, ok) == IF ok THEN {} ELSE {name}
SetOf(s) == {s[i] : i \in DOMAIN s}
Sq(x) == x * x
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_, _)
Sum(F(_), k) == IF k = 0 THEN 0 ELSE F(k) + Sum(F, k - 1)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE a \in S : \A b \in S : a <= b IN <<x>> \o Sorted(S \ {x})

\* ---- planes
Heights(cells) == Sorted({cells[i].z : i \in DOMAIN cells})
PlaneOf(cells, z) == {i \in DOMAIN cells : cells[i].z = z}
Aligned(a, b) == a.col = b.col /\ Sq(a.d[1] - b.d[1]) + Sq(a.d[2] - b.d[2]) <= 64
Above(cells, i, z) == {j \in PlaneOf(cells, z) : Aligned(cells[i], cells[j])}
Regular(cells) == LET H == Heights(cells) IN
  /\ Len(H) >= 2
  /\ \A k \in DOMAIN H : Cardinality(PlaneOf(cells, H[k])) = Cardinality(PlaneOf(cells, H[1]))
  /\ \A k \in 2..(Len(H) - 1) : H[k + 1] - H[k] = H[k] - H[k - 1]
  /\ \A i \in PlaneOf(cells, H[1]) : \A k \in DOMAIN H : Cardinality(Above(cells, i, H[k])) = 1
Column(cells, i) == LET H == Heights(cells) IN [k \in DOMAIN H |-> CHOOSE j \in Above(cells, i, H[k]) : TRUE]

\* ---- what is asked for: general options, and a selection (sequence of <<name, directives>>)
Apply1(o, d) == CASE d.k = "no_avg" -> [o EXCEPT !.avg = FALSE] [] d.k = "nmode" -> [o EXCEPT !.nmode = d.n] [] OTHER -> [o EXCEPT ![d.k] = d.on]
RECURSIVE Apply(_, _)
Apply(o, ds) == IF ds = <<>> THEN o ELSE Apply(Apply1(o, Head(ds)), Tail(ds))
\* wanted: set of <<name of the result, field, statistic, mode>>
Wanted(f, o) == (IF o.snapshot THEN {<<f, f, "snap", 0>>} ELSE {}) \cup (IF o.avg THEN {<<f \o "_avg", f, "avg", 0>>} ELSE {})
  \cup (IF o.rms THEN {<<f \o "_rms", f, "rms", 0>>} ELSE {})
  \cup {<<f \o "_k" \o ToString(m), f, "amp", m>> : m \in 1..o.nmode}
  \cup (IF o.phase THEN {<<f \o "_k" \o ToString(m) \o "_phase", f, "pha", m>> : m \in 1..o.nmode} ELSE {})
AllWanted(names, gen, has, sel) == IF ~has THEN UNION {Wanted(f, gen) : f \in names} ELSE UNION {Wanted(sel[i][1], Apply(gen, sel[i][2])) : i \in DOMAIN sel}
\* ---- statistics of the values x of a column
Close(q, s) == LET lo == IF q > 2 THEN q - 2 ELSE 0 IN q >= 0 /\ Sq(lo) <= s /\ s <= Sq(q + 2)
Re(x, m, cos) == LET n == Len(x) F(j) == x[j] * cos[(((j - 1) * m) % n) + 1] IN Sum(F, n)
Im(x, m, sin) == LET n == Len(x) F(j) == -x[j] * sin[(((j - 1) * m) % n) + 1] IN Sum(F, n)
StatOk(stat, m, x, q, cos, sin) ==
  LET n == Len(x) S1(j) == x[j] S2(j) == x[j] * x[j] IN
  CASE stat = "snap" -> q = x[1]
    [] stat = "avg" -> q = Sum(S1, n)
    [] stat = "rms" -> Close(q, 256 * (n * Sum(S2, n) - Sq(Sum(S1, n))))
    [] stat = "amp" -> Close(q, Sq(Re(x, m, cos) \div 1024) + Sq(Im(x, m, sin) \div 1024))
    [] stat = "pha" -> Abs(q[1] - (Re(x, m, cos) \div 1024)) <= 3 /\ Abs(q[2] - (Im(x, m, sin) \div 1024)) <= 3
\* res: [cells |-> <<[t, p]>>, npoint, fields |-> << <<name, rows>> >>]; rows[i][component]
ResFails(cells, fields, want, cos, sin, res) ==
  LET first == PlaneOf(cells, Heights(cells)[1])
      Home(r) == {i \in first : cells[i].t = r.t /\ cells[i].p = r.p}
      G == DOMAIN res.cells IN
  IF ~(\A r \in G : Cardinality(Home(res.cells[r])) = 1) \/ Len(res.cells) # Cardinality(first) \/ UNION {Home(res.cells[r]) : r \in G} # first
  THEN {"the cells are those of the first plane"} ELSE
  Cl("points of the first plane only", res.npoint = Cardinality(UNION {SetOf(cells[i].n) : i \in first})) \cup
  IF {res.fields[i][1] : i \in DOMAIN res.fields} # {w[1] : w \in want} THEN {"exactly what is asked for"} ELSE
  UNION {LET w == CHOOSE v \in want : v[1] = res.fields[i][1]
             f == (CHOOSE g \in SetOf(fields) : g[1] = w[2])[2]
             rows == res.fields[i][2] IN
         Cl(w[3] \o " of the cells of the column",
            Len(rows) = Len(res.cells) /\ \A r \in DOMAIN rows :
              LET col == Column(cells, CHOOSE a \in Home(res.cells[r]) : TRUE) IN
              Len(rows[r]) = Len(f[1]) /\ \A a \in DOMAIN rows[r] : StatOk(w[3], w[4], [k \in DOMAIN col |-> f[col[k]][a]], rows[r][a], cos, sin))
         : i \in DOMAIN res.fields}
ZFails(cells, fields, gen, has, sel, cos, sin, exc, res) ==
  LET names == {fields[i][1] : i \in DOMAIN fields}
      bad == ~Regular(cells) \/ (has /\ \E i \in DOMAIN sel : sel[i][1] \notin names) IN
  IF exc # "" THEN Cl("a correct grid is refused", bad) ELSE
  IF bad THEN {"a grid that is not made of planes, or a wrong name, is accepted"} ELSE
  ResFails(cells, fields, AllWanted(names, gen, has, sel), cos, sin, res)
\* cells taken in an order
ExtractFails(cells, ids, exc, res) == IF exc # "" THEN {"refused: extract"} ELSE
  Cl("the cells asked for, in order", Len(res.cells) = Len(ids) /\ \A i \in DOMAIN ids : res.cells[i].t = cells[ids[i]].t /\ res.cells[i].p = cells[ids[i]].p)
  \cup Cl("no other points", res.npoint = Cardinality(UNION {SetOf(cells[ids[i]].n) : i \in DOMAIN ids}))
=============================================================================
