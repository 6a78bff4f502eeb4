COMMON = '''
import os, sys
sys.path.insert(0, os.getcwd())
import h5py, numpy as np
os.chdir(os.environ['SCRATCH'])
from cfdtools.cgns import cgnsMesh
def node(p, name, label, data=None):
    g = p.create_group(name)
    g.attrs['name'] = np.bytes_(name); g.attrs['label'] = np.bytes_(label)
    if isinstance(data, str):
        data = np.frombuffer(data.encode(), dtype=np.int8)
    if data is not None:
        g.create_dataset(' data', data=np.asarray(data))
    return g
TET = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
def zone(base, name, pts, ncell, secs, bcs):
    """secs: name, code, first, rows; bcs: name, kind, dict of children"""
    z = node(base, name, 'Zone_t', [[len(pts)], [ncell], [0]])
    node(z, 'ZoneType', 'ZoneType_t', 'Unstructured')
    gc = node(z, 'GridCoordinates', 'GridCoordinates_t')
    for k, n in enumerate('XYZ'):
        node(gc, 'Coordinate' + n, 'DataArray_t', [float(p[k]) for p in pts])
    for n, code, first, rows in secs:
        s = node(z, n, 'Elements_t', [code, 0])
        node(s, 'ElementRange', 'IndexRange_t', [first, first + len(rows) - 1])
        node(s, 'ElementConnectivity', 'DataArray_t', [i for r in rows for i in r])
    zb = node(z, 'ZoneBC', 'ZoneBC_t')
    for n, kind, sub in bcs:
        b = node(zb, n, 'BC_t', kind)
        for k, v in sub.items():
            node(b, k, {'PointList': 'IndexArray_t', 'PointRange': 'IndexRange_t'}.get(k, k + '_t'), v)
def file(name, *zones, dim=3):
    with h5py.File(name, 'w') as f:
        node(f, 'CGNSLibraryVersion', 'CGNSLibraryVersion_t', np.array([3.4], dtype=np.float32))
        b = node(f, 'Base', 'CGNSBase_t', [dim, 3])
        for z in zones:
            zone(b, *z)
def marks(name, **kw):
    r = cgnsMesh(name); r.read_data(**kw); m = r.export_mesh()
    return {k: sorted(int(i) for i in b.index.list()) for k, b in m._bocos.items()}
'''
F, N = 'cfdtools/cgns/cgns.py', 'cfdtools/meshbase/_connectivity.py'
SEEDS = [
 dict(id='c11-family', property='C11',
  edits=[(F, 'if "FamilyName" in BC.keys():', 'if "FamilyName" in BC.keys() and h5_str(BC[" data"]).startswith("Family"):')],
  needs='a condition with a family and a kind of its own', breaks='the mark does not have the name of the family', demo=COMMON + '''
file('a.cgns', ('Z', TET, 1, [('T', 10, 1, [(1, 2, 3, 4)])], [('bc1', 'BCWall', {'FamilyName': 'wall', 'PointList': [[1], [2], [3]]})]))
assert marks('a.cgns') == {'wall': [0, 1, 2]}
'''),
 dict(id='c11-location', property='C11',
  edits=[(F, '        bcloc = "Vertex"\n', '        bcloc = "Vertex" if "PointList" in bc.keys() else "FaceCenter"\n')],
  needs='a range of nodes without a location', breaks='numbers of nodes are taken as numbers of faces', demo=COMMON + '''
file('a.cgns', ('Z', TET, 1, [('T', 10, 1, [(1, 2, 3, 4)]), ('F', 5, 2, [(1, 3, 2), (2, 3, 4)])], [('bc1', 'BCWall', {'PointRange': [[2], [3]]})]))
assert marks('a.cgns') == {'bc1': [1, 2]}
'''),
 dict(id='c11-whole', property='C11',
  edits=[(F, 'if len(nodelist) == self.nnode:', 'if len(nodelist) in (self.nnode, self.ncell):')],
  needs='a condition with as many nodes as the zone has cells', breaks='the condition is dropped as if it were the domain', demo=COMMON + '''
file('a.cgns', ('Z', TET + [(1, 1, 1), (2, 1, 1)], 3, [('T', 10, 1, [(1, 2, 3, 4), (2, 3, 4, 5), (2, 3, 5, 6)])], [('bc1', 'BCWall', {'PointList': [[1], [2], [3]]})]))
assert marks('a.cgns') == {'bc1': [0, 1, 2]}
'''),
 dict(id='c11-zone', property='C11',
  edits=[(F, 'assert len(self._zones) == 1,', 'assert self._zones,')],
  needs='a file of several zones read without choosing one', breaks='the first zone is read without notice', demo=COMMON + '''
file('a.cgns', *[(n, TET, 1, [('T', 10, 1, [(1, 2, 3, 4)])], []) for n in ('A', 'B')])
try:
    marks('a.cgns')
except Exception:
    sys.exit(0)
sys.exit(1)
'''),
 dict(id='c11-face-nodes', property='C11',
  edits=[(N, "            ind.extend(e2n['index'].list())\n            f2n.extend(e2n['elem2node'].tolist())\n        # joinlist = list(",
             "            ind.extend(range(len(ind), len(ind) + e2n['index'].size) if ind else e2n['index'].list())\n            f2n.extend(e2n['elem2node'].tolist())\n        # joinlist = list(")],
  needs='faces of two types whose sections are separated by cells', breaks='a condition on faces of the second type holds the nodes of others', demo=COMMON + '''
P = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)]
file('a.cgns', ('Z', P, 1, [('F', 5, 1, [(1, 3, 2), (4, 5, 6)]), ('C', 14, 3, [(1, 2, 3, 4, 5, 6)]), ('G', 7, 4, [(1, 2, 5, 4), (2, 3, 6, 5)])],
   [('bc1', 'BCWall', {'GridLocation': 'FaceCenter', 'PointList': [[4]]})]))
assert marks('a.cgns') == {'bc1': [0, 1, 3, 4]}
'''),
]
