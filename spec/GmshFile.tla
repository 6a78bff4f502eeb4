------------------------------- MODULE GmshFile -------------------------------
(* Design of the two encodings of one small plane mesh (a quadrangle and a
   triangle, three sides in two curves) and of their reading.
   Version 2.2: one list of nodes, one line per element and physical group.
   Version 4.1: table of entities with their groups, blocks of nodes and of
   elements, emitted one after the other in any order.                        *)
EXTENDS GmshRel
CONSTANTS TagSets, NodeBlocks, ElemBlocks
NodesFew == {<<>>, <<5>>, <<1, 2>>, <<4, 3>>, <<3, 4, 5>>, <<2, 3, 4, 5, 1>>}
NodesMany == NodesFew \cup {<<1>>, <<5, 1>>, <<2>>, <<4, 2, 3, 5>>}
ElemsFew == {<<1, 2>>, <<3>>, <<4>>, <<5>>}
ElemsMany == ElemsFew \cup {<<1>>, <<2>>}
TagsA == {<<1, 2, 3, 4, 5>>}
TagsAB == {<<1, 2, 3, 4, 5>>, <<2, 7, 4, 9, 3>>}
\* entities: curves 1 and 2, surface 1;  lines: entity, type, nodes (positions)
Lines == << <<1, 1, "bar2", <<1, 2>>>>, <<1, 1, "bar2", <<2, 5>>>>, <<1, 2, "bar2", <<3, 4>>>>,
            <<2, 1, "quad4", <<1, 2, 3, 4>>>>, <<2, 1, "tri3", <<2, 5, 3>>>> >>
VARIABLES tag,     \* tag of each node position
          phys,    \* entity -> sequence of groups
          named,   \* set of <<dim, group>> with a name
          nb, eb,  \* blocks already written (version 4)
          ver, closed
vars == <<tag, phys, named, nb, eb, ver, closed>>
Ents == {<<1, 1>>, <<1, 2>>, <<2, 1>>}
Name(d, g) == IF d = 1 THEN (IF g = 1 THEN "c1" ELSE "c2") ELSE "s"
Init == /\ tag \in TagSets
        /\ phys \in [Ents -> {<<>>, <<1>>, <<1, 2>>}] /\ phys[<<2, 1>>] \in {<<>>, <<1>>}
        /\ named \in SUBSET {<<1, 1>>, <<1, 2>>, <<2, 1>>} /\ nb = <<>> /\ eb = <<>> /\ ver \in {2, 4} /\ closed = FALSE
Written(q) == UNION {Rgs(q[k]) : k \in DOMAIN q}
PutNodes == /\ ver = 4 /\ ~closed /\ eb = <<>> /\ Len(nb) < 3
            /\ \E b \in NodeBlocks :
                 Rgs(b) \cap Written(nb) = {} /\ nb' = Append(nb, b)
            /\ UNCHANGED <<tag, phys, named, eb, ver, closed>>
PutElems == /\ ver = 4 /\ ~closed /\ Written(nb) = 1..5
            /\ \E b \in ElemBlocks : Rgs(b) \cap Written(eb) = {} /\ eb' = Append(eb, b)
            /\ UNCHANGED <<tag, phys, named, nb, ver, closed>>
Close == /\ ~closed /\ (ver = 2 \/ Written(eb) = DOMAIN Lines) /\ closed' = TRUE /\ UNCHANGED <<tag, phys, named, nb, eb, ver>>
Next == PutNodes \/ PutElems \/ Close
Spec == Init /\ [][Next]_vars
\* ---- the content
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Content == [nodes |-> [p \in 1..5 |-> <<tag[p], p>>],
            elems |-> [k \in DOMAIN Lines |-> <<Lines[k][1], Lines[k][3], phys[<<Lines[k][1], Lines[k][2]>>], [i \in DOMAIN Lines[k][4] |-> tag[Lines[k][4][i]]]>>],
            names |-> SetSeq({<<x[1], x[2], Name(x[1], x[2])>> : x \in named})]
\* ---- reading: version 2 lines repeat an element for each group; version 4 looks the entity up
Reps(k) == IF phys[<<Lines[k][1], Lines[k][2]>>] = <<>> THEN <<0>> ELSE phys[<<Lines[k][1], Lines[k][2]>>]
RECURSIVE V2Lines(_)
V2Lines(k) == IF k = 0 THEN <<>> ELSE V2Lines(k - 1) \o [j \in DOMAIN Reps(k) |-> <<k, Reps(k)[j]>>]
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
V4Order == Flat(eb)
RECURSIVE V4Lines(_)
V4Lines(q) == IF q = <<>> THEN <<>> ELSE [j \in DOMAIN Reps(q[1]) |-> <<q[1], Reps(q[1])[j]>>] \o V4Lines(Tail(q))
NodeOrder == IF ver = 2 THEN <<1, 2, 3, 4, 5>> ELSE Flat(nb)
Rank(t) == Cardinality({p \in 1..5 : tag[p] < t})
\* algorithm: nodes sorted by tag, cells as they come, marks gathered by group of the lines
ReadLines == IF ver = 2 THEN V2Lines(Len(Lines)) ELSE V4Lines(V4Order)
CellSeq == SelectSeq(ReadLines, LAMBDA r : Lines[r[1]][1] = 2)
MarkOf(g) == UNION {{Rank(tag[Lines[r[1]][4][i]]) : i \in DOMAIN Lines[r[1]][4]} : r \in {x \in Rgs(ReadLines) : Lines[x[1]][1] = 1 /\ x[2] = g}}
ReadMesh == [nnode |-> Len(NodeOrder), ncell |-> Len(CellSeq),
   w |-> [i \in 1..Len(NodeOrder) |-> CHOOSE t \in Rgs(tag) : Rank(t) = i - 1],
   pts |-> [i \in 1..Len(NodeOrder) |-> CHOOSE p \in Rgs(NodeOrder) : Rank(tag[p]) = i - 1],
   cells |-> [k \in DOMAIN CellSeq |-> <<k - 1, Lines[CellSeq[k][1]][3], [i \in DOMAIN Lines[CellSeq[k][1]][4] |-> Rank(tag[Lines[CellSeq[k][1]][4][i]])]>>],
   marks |-> SetSeq({[name |-> Name(1, g), type |-> "boundary", geodim |-> "node", index |-> SetSeq(MarkOf(g))] : g \in {x \in {1, 2} : <<1, x>> \in named /\ MarkOf(x) # {}}})]
Good == closed => ReadGmshFails(Content, ReadMesh) = {}
=============================================================================
