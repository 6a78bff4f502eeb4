COMMON = '''
import numpy as np
import cfdtools.meshbase._mesh as M
import cfdtools.meshbase._connectivity as C
'''
SEEDS = [
 dict(id='c01-pyra-side', property='C01',
  edits=[('cfdtools/meshbase/_elements.py', "    'F3': ['N2', 'N3', 'N5'],\n", "    'F3': ['N3', 'N2', 'N5'],\n")],
  needs='a pyramid whose side on its nodes 2-3-5 is the first to be met or a boundary face',
  breaks='one side of the pyramids is listed with its nodes reversed: normals of faces point into their first cell',
  demo=COMMON + '''
X = np.array([[0,0,0],[1,0,0],[1,1,0],[0,1,0],[.5,.5,1]], float)
m = M.Mesh(ncell=1, nnode=5)
m.set_nodescoord_nd(X)
c = C.elem_connectivity(); c.add_elems('pyra5', np.array([[0,1,2,3,4]])); m.set_cell2node(c)
m.make_face_connectivity()
ctr = X.mean(axis=0)
for _, w in m._faces['boundary']['face2node'].index_elem_tuples():
    n = np.cross(X[w[1]]-X[w[0]], X[w[-1]]-X[w[0]])
    assert n @ (X[w[0]]-ctr) > 0, w
'''),
 dict(id='c01-twin-key', property='C01',
  edits=[('cfdtools/meshbase/_connectivity.py', "face_pairs[tuple(sorted(tface[0]))].append(tface)  # 50% COST",
          "face_pairs[(min(tface[0]), max(tface[0]), sum(tface[0]))].append(tface)  # cheaper than sorting")],
  needs='two different faces of the mesh with the same lowest and highest node and the same sum of node numbers',
  breaks='different faces are taken for the two sides of one internal face, or the derivation stops',
  demo=COMMON + '''
# two separate tetrahedra pairs: faces {0,4,9} of one ... {0,3,9,..} quads with the same min, max and sum
m = M.Mesh(ncell=2, nnode=12)
m.set_nodescoord_nd(np.zeros((12,3)))
c = C.elem_connectivity()
c.add_elems('hexa8', np.array([[0,3,4,11,1,2,5,10],[0,6,11,1,7,8,9,2]]))
m.set_cell2node(c)
m.make_face_connectivity()
sides = []
S = [[0,1,2,3],[4,5,6,7],[0,1,5,4],[1,2,6,5],[2,3,7,6],[3,0,4,7]]
for r in c['hexa8'].tolist():
    sides += [frozenset(r[i] for i in s) for s in S]
bd = [frozenset(w) for _, w in m._faces['boundary']['face2node'].index_elem_tuples()]
assert sorted(map(sorted, bd)) == sorted(sorted(s) for s in sides if sides.count(s) == 1)
'''),
 dict(id='c01-owner-position', property='C01',
  edits=[('cfdtools/meshbase/_connectivity.py',
          "            return faces_neighbour\n\n        # @profile\n        def __find_duplicates",
          "            if len(self._elem2node) == 1:  # a single type: cells are numbered as they are listed\n"
          "                pos = {ind: i for i, ind in enumerate(index)}\n"
          "                for ftype, faces in faces_neighbour.items():\n"
          "                    faces_neighbour[ftype] = [(f, pos[ind]) for f, ind in faces]\n"
          "            return faces_neighbour\n\n        # @profile\n        def __find_duplicates")],
  needs='a mesh of one cell type whose cells are not listed in the order of their numbers',
  breaks='faces are given to the cell at the position of the number and not to the cell with that number',
  demo=COMMON + '''
c = C.elem_connectivity()
c.add_elems('hexa8', np.array([[0,1,2,3,4,5,6,7],[4,5,6,7,8,9,10,11]]), C.indexlist(ilist=[1, 0]))
m = M.Mesh(ncell=2, nnode=12)
m.set_nodescoord_nd(np.zeros((12,3)))
m.set_cell2node(c)
m.make_face_connectivity()
f = m._faces['boundary']
own = {frozenset(w): int(f['face2cell'].conn[i, 0]) for i, w in f['face2node'].index_elem_tuples()}
assert own[frozenset([0,1,2,3])] == 1 and own[frozenset([8,9,10,11])] == 0, own
'''),
]
