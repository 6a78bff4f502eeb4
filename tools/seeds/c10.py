COMMON = '''
import os, sys
import numpy as np
sys.path.insert(0, os.getcwd())
from cfdtools.gmsh import reader
D = os.environ['SCRATCH']
def load(txt):
    p = os.path.join(D, 'f.msh'); open(p, 'w').write(txt)
    r = reader(p); r.read_data(); return r.export_mesh()
PN = """$PhysicalNames
2
1 1 "w"
2 5 "s"
$EndPhysicalNames
"""
'''
P = 'cfdtools/gmsh/reader.py'
SEEDS = [
 dict(id='c10-mixed-mark', property='C10',
  edits=[(P, """            bc = boundaries[family]
            bc["slicing"] = []
            for elt_type in connectivity.keys():
                raveled = np.unique(connectivity[elt_type].ravel())
                bc["slicing"] += raveled.tolist()
            bc["slicing"] = np.array(bc["slicing"])
""", """            bc = boundaries[family]
            for elt_type in connectivity.keys():
                bc["slicing"] = np.unique(connectivity[elt_type].ravel())
""")],
  needs='a named group of both triangles and quadrangles in a 3D mesh', breaks='the mark holds the nodes of the faces of one type only',
  demo=COMMON + '''
import re
txt = """$MeshFormat
2.2 0 8
$EndMeshFormat
$PhysicalNames
1
2 1 "all"
$EndPhysicalNames
$Nodes
6
1 0 0 0
2 1 0 0
3 0 1 0
4 0 0 1
5 1 0 1
6 0 1 1
$EndNodes
$Elements
3
1 2 2 1 1 1 3 2
2 3 2 1 1 1 2 5 4
3 6 2 0 1 1 2 3 4 5 6
$EndElements
"""
m = load(txt)
assert set(m._bocos['all'].index.list()) == {0, 1, 2, 3, 4}
'''),
 dict(id='c10-two-tags', property='C10',
  edits=[(P, "                    ntag = elt[2]  # expected to be 2\n                    connectivity[elt_type].append(elt[3 + ntag :])", "                    connectivity[elt_type].append(elt[5:])")],
  needs='a version 2.2 file whose elements have more than two tags (partitions)', breaks='tags are taken as nodes',
  demo=COMMON + '''
m = load("""$MeshFormat
2.2 0 8
$EndMeshFormat
$Nodes
3
1 0 0 0
2 1 0 0
3 0 1 0
$EndNodes
$Elements
1
1 2 4 0 1 1 1 3 1 2
$EndElements
""")
assert [d['elem2node'].tolist() for _, d in m._cell2node.items()] == [[[2, 0, 1]]]
'''),
 dict(id='c10-dim-last', property='C10',
  edits=[(P, "self._maxdim = np.amax([_elem.dim_elem[gmshtype_elem[e[1]]] for e in elts])", "self._maxdim = _elem.dim_elem[gmshtype_elem[elts[-1][1]]]")],
  needs='a file of a 3D mesh where the last element is a face', breaks='the faces are read as the mesh',
  demo=COMMON + '''
m = load("""$MeshFormat
2.2 0 8
$EndMeshFormat
$Nodes
4
1 0 0 0
2 1 0 0
3 0 1 0
4 0 0 1
$EndNodes
$Elements
2
1 4 2 0 1 1 2 3 4
2 2 2 0 1 1 3 2
$EndElements
""")
assert m.ncell == 1 and 'tetra4' in m._cell2node.elem2node.keys() if hasattr(m._cell2node, 'elem2node') else dict(m._cell2node.items()).keys() == {'tetra4'}
'''),
 dict(id='c10-group-clash', property='C10',
  edits=[(P, "                if elt_type in bc_elt:\n                    ntag = elt[2]", "                if elt_type not in mesh_elt:\n                    ntag = elt[2]")],
  needs='a curve or point of a 3D mesh in a group with the same tag as a named group of faces', breaks='the mark holds nodes of elements that are not faces',
  demo=COMMON + '''
m = load("""$MeshFormat
2.2 0 8
$EndMeshFormat
$PhysicalNames
1
2 1 "w"
$EndPhysicalNames
$Nodes
4
1 0 0 0
2 1 0 0
3 0 1 0
4 0 0 1
$EndNodes
$Elements
3
1 1 2 1 1 1 4
2 2 2 1 1 1 3 2
3 4 2 0 1 1 2 3 4
$EndElements
""")
assert set(m._bocos['w'].index.list()) == {0, 1, 2}
'''),
]
