COMMON = '''
import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import h5py
import cfdtools.data as data
import cfdtools.meshbase._connectivity as conn
import cfdtools.meshbase._mesh as _mesh
from cfdtools.meshbase.simple import Cube
from cfdtools.ic3 import writerV2, reader_legacy
import cfdtools.vtk as vtk
os.chdir(os.environ['SCRATCH'])
def cube(nx=2, ny=2, nz=2):
    return Cube(nx, ny, nz).export_mesh()
def outward(m):
    """cosines of faces normals and of the way from the center of the cell to that of the face"""
    xyz = m.nodescoord(ndarray=True)
    cells = dict((i, xyz[n].mean(axis=0)) for i, n in m._cell2node.index_elem_tuples())
    f = m._faces['boundary']
    res = []
    for i, n in f['face2node'].index_elem_tuples():
        p = xyz[n]
        res.append(float(np.dot(np.cross(p[1] - p[0], p[2] - p[0]), p.mean(axis=0) - cells[f['face2cell'].conn[i, 0]])))
    return res
'''
C = 'cfdtools/meshbase/_connectivity.py'
M = 'cfdtools/meshbase/_mesh.py'
R = 'cfdtools/ic3/reader_legacy.py'
W = 'cfdtools/ic3/writerV2.py'
G = 'cfdtools/cgns/cgns.py'
V = 'cfdtools/vtk/_vtk.py'
SEEDS = [
 dict(id='c16-reverse-inplace', property='C16',
  edits=[(C, "                        reindex_f = elemsarray[:, list(reversed(eface))].tolist()\n",
             "                        eface.reverse()\n                        reindex_f = elemsarray[:, eface].tolist()\n")],
  needs='faces of two meshes derived in one process', breaks='faces of every second mesh are oriented inwards, the face table of the package is changed by its use', demo=COMMON + '''
a = cube()
a.make_face_connectivity()
b = cube()
b.make_face_connectivity()
assert a._faces['boundary']['face2node'].index_elem_tuples() == b._faces['boundary']['face2node'].index_elem_tuples()
assert all((x > 0) == (y > 0) for x, y in zip(outward(a), outward(b)))
'''),
 dict(id='c16-shared-params', property='C16',
  edits=[(M, "    __available_facetypes = ('mixed', 'internal', 'boundary')\n\n    def __init__(self, ncell=0, nnode=0):\n",
             "    __available_facetypes = ('mixed', 'internal', 'boundary')\n    _params = {}\n\n    def __init__(self, ncell=0, nnode=0):\n"),
         (M, "        self.nface = 0\n        self._params = {}\n", "        self.nface = 0\n")],
  needs='a mesh whose parameters are updated without having been set, and another mesh made before or after', breaks='parameters of a mesh appear in all others and in their files', demo=COMMON + '''
a = cube()
a.update_params({'time': 2.5, 'step': 7})
b = cube()
writerV2.writer(b).write_data('b.ic3')
r = reader_legacy.reader('b.ic3')
r.read_data()
assert b._params == {}, b._params
assert r.simulation_state['time'] == 0 and r.simulation_state['step'] == 0, r.simulation_state
'''),
 dict(id='c16-coords-cache', property='C16',
  edits=[(M, "        for i, c in enumerate(['x', 'y', 'z']):\n            self._nodes[c] = xyz[:, i]\n",
             "        for i, c in enumerate(['x', 'y', 'z']):\n            self._nodes[c] = xyz[:, i]\n        self._xyz = None\n"),
         (M, "        for c in [x, y, z]:\n            assert len(c) == self.nnode\n",
             "        for c in [x, y, z]:\n            assert len(c) == self.nnode\n        self._xyz = None\n"),
         (M, "        return np.column_stack(coords) if ndarray else coords\n",
             "        if ndarray and self._xyz is None:\n            self._xyz = np.column_stack(coords)\n        return self._xyz if ndarray else coords\n")],
  needs='a grid made of a mesh, moved in place, then another use of the coordinates of the mesh', breaks='moving a VTK grid moves what is made next of the mesh', demo=COMMON + '''
m = cube()
g = vtk.vtkMesh(m).pyvista_grid
before = np.array(g.points)
g.points[:] += 1.0
g.translate((1.0, 2.0, 3.0), inplace=True)
again = np.array(vtk.vtkMesh(m).pyvista_grid.points)
assert np.array_equal(again, before)
'''),
 dict(id='c16-facecon-cache', property='C16',
  edits=[(G, "    # @memoize\n    @cache\n    def export_facecon(self):\n        return self.elemcon(self._geodim - 1)\n",
             "    _facecon = {}\n\n    def export_facecon(self):\n        key = self._zone.name, self._geodim\n        if key not in self._facecon:\n            self._facecon[key] = self.elemcon(self._geodim - 1)\n        return self._facecon[key]\n")],
  needs='two CGNS files with zones of the same name, and conditions given by faces', breaks='marks of the second file have the nodes of the faces of the first one', demo=COMMON + '''
import cfdtools.cgns as cgns
def node(parent, name, label, arr=None):
    g = parent.create_group(name)
    g.attrs['name'], g.attrs['label'] = np.bytes_(name), np.bytes_(label)
    if isinstance(arr, str):
        arr = np.frombuffer(arr.encode(), dtype=np.int8)
    if arr is not None:
        g.create_dataset(' data', data=np.asarray(arr))
    return g
def write(f, face):
    xyz = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]], float)
    with h5py.File(f, 'w') as h:
        node(h, 'CGNSLibraryVersion', 'CGNSLibraryVersion_t', np.array([3.4], dtype=np.float32))
        z = node(node(h, 'Base', 'CGNSBase_t', np.array([3, 3], dtype=np.int32)), 'zone', 'Zone_t', np.array([[8], [1], [0]], dtype=np.int32))
        node(z, 'ZoneType', 'ZoneType_t', 'Unstructured')
        c = node(z, 'GridCoordinates', 'GridCoordinates_t')
        for i, n in enumerate('XYZ'):
            node(c, 'Coordinate' + n, 'DataArray_t', xyz[:, i])
        for n, t, a, con in (('H', 17, 1, list(range(1, 9))), ('F', 7, 2, face)):
            s = node(z, n, 'Elements_t', np.array([t, 0], dtype=np.int32))
            node(s, 'ElementRange', 'IndexRange_t', np.array([a, a], dtype=np.int32))
            node(s, 'ElementConnectivity', 'DataArray_t', np.array(con, dtype=np.int32))
        b = node(node(z, 'ZoneBC', 'ZoneBC_t'), 'wall', 'BC_t', 'BCWall')
        node(b, 'GridLocation', 'GridLocation_t', 'FaceCenter')
        node(b, 'PointList', 'IndexArray_t', np.array([[2]], dtype=np.int32))
for f, face in (('a.cgns', [1, 4, 3, 2]), ('b.cgns', [5, 6, 7, 8])):
    write(f, face)
    r = cgns.cgnsMesh(f)
    r.read_data()
    nodes = sorted(r.export_mesh()._bocos['wall'].index.list())
    assert nodes == sorted(n - 1 for n in face), (f, nodes)
'''),
 dict(id='c16-state-leak', property='C16',
  edits=[(R, "    def __init__(self, filename, cIntegrity=False):\n        '''\n", "    simulation_state = {\"step\": 0, \"dt\": 0, \"time\": 0, \"wgt\": {}}\n\n    def __init__(self, filename, cIntegrity=False):\n        '''\n"),
         (R, "        # Initialize the state dictionary\n        self.simulation_state = {\"step\": 0, \"dt\": 0, \"time\": 0, \"wgt\": {}}\n", "        # Update the state dictionary\n        self.simulation_state.update({\"step\": 0, \"dt\": 0, \"time\": 0})\n")],
  needs='a file with weights of statistics read before one without', breaks='weights of a file appear in the meshes of files read later', demo=COMMON + '''
def load(f):
    r = reader_legacy.reader(f)
    r.read_data()
    return r.export_mesh()
for f, par in (('a.ic3', {'rho_avg_wgt': 3.0}), ('b.ic3', {})):
    m = cube()
    m.update_params(par)
    writerV2.writer(m).write_data(f)
alone = sorted(load('b.ic3')._params)
load('a.ic3')
assert sorted(load('b.ic3')._params) == alone, (alone, sorted(load('b.ic3')._params))
'''),
 dict(id='c16-same-file', property='C16',
  edits=[(V, "    def read(self, filename):\n        self.__init__()\n        self.set_pvmesh(pv.read(filename))\n",
             "    _read = {}\n\n    def read(self, filename):\n        self.__init__()\n        if filename not in self._read:\n            self._read[filename] = pv.read(filename)\n        self.set_pvmesh(self._read[filename].copy())\n")],
  needs='a VTK file read, written again with another mesh, and read again', breaks='the former content of a file is read', demo=COMMON + '''
for n in (1, 2):
    vtk.vtkMesh(cube(n, 1, 1)).write_data('m.vtu')
    assert vtk.vtkMesh().read('m.vtu').ncell == n
'''),
]
