COMMON = '''
import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import cfdtools.meshbase._mesh as _mesh
import cfdtools.meshbase._connectivity as conn
import cfdtools.meshbase.simple as simple
os.chdir(os.environ['SCRATCH'])
def cube(*n):
    return simple.Cube(*n).export_mesh()
def faced(*n):
    m = cube(*n)
    m.make_face_connectivity()
    m.bocomarks_set_node_to_face()
    return m
'''
F = 'cfdtools/meshbase/_mesh.py'
SEEDS = [
 dict(id='c21-scale-zero', property='C21',
  edits=[(F, "            self._nodes['z'] * scale_xyz[2],", "            self._nodes['z'] * (scale_xyz[2] or 1.0),")],
  needs='a mesh projected on a plane (factor 0) in the third direction', breaks='the factor 0 is ignored', demo=COMMON + '''
m = cube(1, 2, 2)
m.scale([2., 1., 0.])
assert not np.any(m.nodescoord()[2])
'''),
 dict(id='c21-scale-shared', property='C21',
  edits=[(F, "            self._nodes['x'] * scale_xyz[0],\n            self._nodes['y'] * scale_xyz[1],\n            self._nodes['z'] * scale_xyz[2],",
          "            *(\n                np.multiply(x, s, out=x if getattr(x, 'dtype', None) == np.float64 else None)\n                for x, s in zip(self.nodescoord(), scale_xyz)\n            )")],
  needs='two meshes made of the same arrays of coordinates, one of them scaled', breaks='the arrays of the caller and the other mesh are scaled as well', demo=COMMON + '''
xyz = np.array([[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [0., 0., 1.]])
a, b = _mesh.Mesh(ncell=1, nnode=4), _mesh.Mesh(ncell=1, nnode=4)
a.set_nodescoord_nd(xyz); b.set_nodescoord_nd(xyz)
a.scale([2., 3., 4.])
assert xyz.max() == 1. and b.nodescoord(ndarray=True).max() == 1.
'''),
 dict(id='c21-morph-partial', property='C21',
  edits=[(F, "        self.set_nodescoord_xyz(newx, newy, newz)\n\n    def scale", "        for c, new in zip('xyz', (newx, newy, newz)):\n            assert len(new) == self.nnode\n            self._nodes[c] = np.array(new)\n\n    def scale")],
  needs='a function that returns an array of a wrong size after a right one', breaks='a refused morphing leaves part of the coordinates changed', demo=COMMON + '''
m = cube(1, 1, 1)
try:
    m.morph(lambda x, y, z: (x + 1, y[:-1], z))
except Exception:
    pass
assert m.nodescoord()[0].max() == 1.
'''),
 dict(id='c21-faces-count', property='C21',
  edits=[(F, "        self.nface = np.sum([fcon['face2node'].nelem for _, fcon in self._faces.items()])\n\n    def pop", "        self.nface = np.sum([fcon['face2node'].nelem for t, fcon in self._faces.items() if t != 'mixed' or facetype == t])\n\n    def pop")],
  needs='internal or boundary faces added while the mixed faces are held', breaks='the number of faces does not count one of the sets held', demo=COMMON + '''
m = cube(1, 1, 2)
m.make_face_connectivity()
m.add_faces('mixed', *m.export_mixedfaces())
f = m._faces['boundary']
m.add_faces('boundary', f['face2node'], f['face2cell'])
assert m.nface == 22
'''),
 dict(id='c21-boco-case', property='C21',
  edits=[(F, "        self._bocos[boco.name] = boco\n", "        self._bocos.setdefault(boco.name, boco).index = boco.index\n")],
  needs='a mark given under the name of an existing mark of another dimension', breaks='the mark keeps the dimension and properties of the one it replaces', demo=COMMON + '''
m = cube(1, 1, 1)
b = _mesh.submeshmark('imin')
b.geodim, b.type = 'face', 'perio_cart'
b.properties['periodic_transform'] = [1., 0., 0.]
b.index = conn.indexlist(ilist=[0])
m.add_boco(b)
assert m.seekmark('imin').geodim == 'face' and m.seekmark('imin').type == 'perio_cart'
'''),
 dict(id='c21-pop-celldata', property='C21',
  edits=[(F, "        return self._nodedata.pop(name) if name in self._nodedata.keys() else None", "        for data in (self._nodedata, self._celldata):\n            if name in data.keys():\n                return data.pop(name)\n        return None")],
  needs='the removal of a node field that is not there while a cell field has its name', breaks='the cell field is removed', demo=COMMON + '''
m = cube(1, 1, 2)
m._celldata['rho'] = np.arange(2.)
assert m.pop_nodedata('rho') is None
assert 'rho' in m._celldata.keys()
'''),
]
