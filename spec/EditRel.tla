-------------------------------- MODULE EditRel --------------------------------
(* What each edit of a mesh may change.  The state of a mesh is that of MeshState
   with pts (the coordinates as integers, units of 1/1024) and params (sequence of
   <<key, value>>).  Every edit keeps all parts of the state but its own.         *)
EXTENDS MeshState
Parts == {"nnode", "ncell", "pts", "cells", "int", "bnd", "mix", "nface", "marks", "part", "params", "nd", "cd", "ndof"}
Kept(pre, post, own) == {"kept: " \o p : p \in {q \in Parts \ own : pre[q] # post[q]}}
Zip3(pts, F(_)) == [i \in DOMAIN pts |-> F(pts[i])]
\* the functions given to morph
Fn(k, p) == CASE k = "same" -> p [] k = "swap" -> <<p[2], p[1], p[3]>> [] k = "shift" -> <<p[1] + 1024, p[2], p[3] - 512>>
              [] k = "shear" -> <<p[1] + p[2], p[2], p[3] - p[1]>> [] k = "flat" -> <<p[1], p[2], 0>> [] k = "copy" -> <<p[1], p[1], p[3]>>
              [] k = "turn" -> <<p[3], p[1], 0 - p[2]>>
ScaleFails(pre, post, num, den) ==
  Kept(pre, post, {"pts"})
  \cup Cl("each coordinate is multiplied by its factor",
          Len(post.pts) = Len(pre.pts) /\ \A i \in DOMAIN pre.pts : \A a \in 1..3 : den * post.pts[i][a] = pre.pts[i][a] * num[a])
MorphFails(pre, post, k) ==
  Kept(pre, post, {"pts"}) \cup Cl("coordinates are the result of the function", post.pts = [i \in DOMAIN pre.pts |-> Fn(k, pre.pts[i])])
Named(d, nm) == {i \in DOMAIN d : d[i][1] = nm}
Without(d, nm) == SelectSeq(d, LAMBDA x : x[1] # nm)
\* ret: <<>> (nothing) or <<field>>
PopFails(pre, post, which, nm, ret) ==
  Kept(pre, post, {which})
  \cup Cl("the field is removed and no other", post[which] = Without(pre[which], nm))
  \cup Cl("the values of the field are returned", IF Named(pre[which], nm) = {} THEN ret = <<>>
          ELSE Len(ret) = 1 /\ LET x == pre[which][CHOOSE i \in Named(pre[which], nm) : TRUE] IN ret[1] = x)
\* ---- marks
Marks(m) == SetOfSeq(m.marks)
AddMarkFails(pre, post, mk) ==
  Kept(pre, post, {"marks"})
  \cup Cl("the mark is added and no other changes", Marks(post) = {x \in Marks(pre) : x.name # mk.name} \cup {mk} /\ Len(post.marks) = Cardinality(Marks(post)))
DropMarkFails(pre, post, nm, exc) ==
  Kept(pre, post, {"marks"})
  \cup Cl("the mark is removed and no other", Marks(post) = {x \in Marks(pre) : x.name # nm} /\ Len(post.marks) = Cardinality(Marks(post)))
  \cup Cl("only a mark that is not there can be refused", exc # "" => nm \notin MarkNames(pre))
\* ---- sets of faces
KindKey(k) == CASE k = "internal" -> "int" [] k = "boundary" -> "bnd" [] k = "mixed" -> "mix"
NoTable == [has |-> FALSE, f |-> <<>>, c |-> <<>>]
CountFaces(m) == (IF m.int.has THEN Len(m.int.f) ELSE 0) + (IF m.bnd.has THEN Len(m.bnd.f) ELSE 0) + (IF m.mix.has THEN Len(m.mix.f) ELSE 0)
AddFacesFails(pre, post, k, tab, exc) ==
  IF k \notin {"internal", "boundary", "mixed"} THEN Cl("an unknown set of faces is refused", exc # "") \cup Kept(pre, post, {}) ELSE
  Cl("faces cannot be added", exc = "") \cup Kept(pre, post, {KindKey(k), "nface"}) \cup Cl("the set of faces is the one given", post[KindKey(k)] = tab)
  \cup Cl("number of faces", post.nface = CountFaces(post))
PopFacesFails(pre, post, k) ==
  IF k \notin {"internal", "boundary", "mixed"} THEN Kept(pre, post, {}) ELSE
  Kept(pre, post, {KindKey(k), "nface"}) \cup Cl("the set of faces is removed", post[KindKey(k)] = NoTable)
  \cup Cl("number of faces", post.nface = CountFaces(post))
\* ---- check of the mesh
FullyMarked(m) == m.bnd.has => /\ \A k \in DOMAIN m.marks : FaceMark(m.marks[k])
                               /\ {m.bnd.f[i][1] : i \in DOMAIN m.bnd.f} \subseteq UNION {SetOfSeq(m.marks[k].index) : k \in DOMAIN m.marks}
CountsAgree(m) == m.ncell > 0 /\ m.nnode > 0 /\ (m.hascells => m.ncell = Len(m.cells))
CheckFails(pre, post, exc) ==
  Kept(pre, post, {})
  \cup Cl("a mesh is accepted exactly when its counts agree and its boundary is marked", (exc = "") <=> (CountsAgree(pre) /\ FullyMarked(pre)))
\* ---- parameters
PKeys(p) == {p[i][1] : i \in DOMAIN p}
Value(p, k) == LET i == CHOOSE j \in DOMAIN p : p[j][1] = k IN p[i][2]
UpdateFails(pre, post, new) ==
  Kept(pre, post, {"params"})
  \cup Cl("parameters given replace those of the same name, others stay",
          /\ PKeys(post.params) = PKeys(pre.params) \cup PKeys(new)
          /\ \A k \in PKeys(post.params) : Value(post.params, k) = IF k \in PKeys(new) THEN Value(new, k) ELSE Value(pre.params, k))
=============================================================================
