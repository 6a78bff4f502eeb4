COMMON = '''
import os, sys, struct, io, contextlib
sys.path.insert(0, os.getcwd())
import numpy as np
import cfdtools.ic3.reader_legacy as R
import cfdtools.ic3.readerV4 as R4
import cfdtools.ic3.writerV3 as w3
import cfdtools.meshbase.simple as simple
os.chdir(os.environ['SCRATCH'])

def section(name, sid, idata, rdata, data):
    idata, rdata = list(idata) + [0] * (8 - len(idata)), list(rdata) + [0.] * (16 - len(rdata))
    return struct.pack('<52siq8q16d', name.encode(), sid, 256 + len(data), *idata, *rdata) + data

def p(base, v):
    return struct.pack('<%d%s' % (len(v), base), *v)

def restart(path, no, cv, faces, zones, part=None, wgt=(), fields=()):
    nn = sum(len(f[0]) for f in faces)
    part = part or (1, [0] * cv)
    b = struct.pack('<ii', 123581321, 3) + section('COUNTS', 10, (no, len(faces), cv, nn), (), b'')
    b += section('NOOFA_I_AND_V', 21, (len(faces), nn), (), p('i', [len(f[0]) for f in faces]) + p('i', [n for f in faces for n in f[0]]))
    b += section('CVOFA', 22, (len(faces), 2), (), p('i', [c for f in faces for c in f[1:]]))
    for name, kind, a, z in zones:
        b += section(name, 23, (kind, a, z), (), b'')
    b += section('CV_PART', 41, (cv, part[0]), (), p('i', part[1]))
    b += section('X_NO', 31, (no, 3), (), p('d', [float(i) for i in range(3 * no)]))
    b += section('STEP', 11, (5,), (), b'')
    for n, v in wgt:
        b += section(n, 12, (), (v,), b'')
    for n, sid, dims, v in fields:
        b += section(n, sid, dims, (), p('d', v))
    b += section('EOF', 51, (), (), b'')
    open(path, 'wb').write(b)

def v4(path, no, cv, faces, zones):
    import h5py
    with h5py.File(path, 'w') as h:
        h.attrs.update({'ic3_format_version': 4, 'no_count': no, 'fa_count': len(faces), 'cv_count': cv})
        h['coordinates'] = np.arange(3. * no)
        g = h.create_group('Connectivities/Face')
        g['cvofa'] = np.array([c for f in faces for c in f[1:]], dtype='i4')
        g['noofa_i'] = np.array([len(f[0]) for f in faces], dtype='i4')
        g['noofa_v'] = np.array([n for f in faces for n in f[0]], dtype='i4')
        b = h.create_group('Boundaries')
        b.create_dataset('labels', data=[z[0].encode() for z in zones], dtype=h5py.string_dtype('utf-8', 128))
        b['kinds'] = np.array([z[1] for z in zones], dtype='i4')
        b['offsets'] = np.array([z[2] for z in zones] + [zones[-1][3] + 1], dtype='i4')

FACES = [([0, 1, 2], 0, -1), ([1, 2, 3], 0, -1), ([2, 3, 4], 1, -2), ([3, 4, 5], 1, -3), ([4, 5, 6], 0, 1)]
ZONES = [('wall', 1, 0, 1), ('per', 2, 2, 3), ('inner', 6, 4, 4)]

def read(r):
    r.read_data()
    return r

MSH = '$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n$PhysicalNames\\n1\\n3 1 "fluid"\\n$EndPhysicalNames\\n'

def msh(path, n):
    """a row of cubes, each second one cut into two prisms"""
    num = lambda i, j, k: 4 * i + 2 * j + k + 1
    t = MSH + '$Nodes\\n%d\\n' % (4 * (n + 1))
    t += ''.join('%d %d %d %d\\n' % (num(i, j, k), i, j, k) for i in range(n + 1) for j in (0, 1) for k in (0, 1)) + '$EndNodes\\n'
    e = []
    for i in range(n):
        a, b = [[num(i, 0, k), num(i + 1, 0, k), num(i + 1, 1, k), num(i, 1, k)] for k in (0, 1)]
        if i % 2:
            e += [(6, [a[0], a[1], a[2], b[0], b[1], b[2]]), (6, [a[0], a[2], a[3], b[0], b[2], b[3]])]
        else:
            e.append((5, a + b))
    t += '$Elements\\n%d\\n' % len(e) + ''.join('%d %d 2 1 1 %s\\n' % (i + 1, ty, ' '.join(map(str, nd))) for i, (ty, nd) in enumerate(e)) + '$EndElements\\n'
    open(path, 'w').write(t)
    return len(e)
'''
RL, R4, G, CG = 'cfdtools/ic3/reader_legacy.py', 'cfdtools/ic3/readerV4.py', 'cfdtools/gmsh/reader.py', 'cfdtools/cgns/cgns.py'
SEEDS = [
 dict(id='c25-second-periodic', property='C25',
  edits=[(RL, 'self.mesh["connectivity"]["cvofa"]["cvofa"][:, 1] < -1', 'self.mesh["connectivity"]["cvofa"]["cvofa"][:, 1] == -2')],
  needs='a file with more than one code of periodic faces', breaks='periodic faces of the other codes are not counted', demo=COMMON + '''
restart('a.ic3', 7, 2, FACES, ZONES)
r = read(R.reader('a.ic3'))
assert r.mesh['params']['nfa_bp'] == 2 and r.mesh['params']['nfa_b'] == 2, r.mesh['params']
'''),
 dict(id='c25-first-code', property='C25',
  edits=[(R4, 'self.mesh["params"]["nfa_b"] = counts[iwhere]', 'self.mesh["params"]["nfa_b"] = counts[0]')],
  needs='a file of version 4 with assigned and periodic faces', breaks='the number of assigned faces is that of a periodic code', demo=COMMON + '''
v4('a.h5', 7, 2, FACES, ZONES)
r = read(R4.reader('a.h5'))
assert r.mesh['params']['nfa_b'] == 2, r.mesh['params']
'''),
 dict(id='c25-last-face', property='C25',
  edits=[(RL, 'sto = face2node_index[famax + 1]', 'sto = face2node_index[min(famax + 1, max(famin + 1, fa_count - 1))]')],
  needs='a zone of several faces that ends with the last face of the file', breaks='the nodes of the last face are missing from its zone', demo=COMMON + '''
restart('a.ic3', 7, 2, FACES, [('wall', 1, 0, 1), ('other', 1, 2, 4)])
r = read(R.reader('a.ic3'))
assert r.mesh['bocos'][1].properties['slicing'].tolist() == [2, 3, 4, 5, 6], r.mesh['bocos'][1].properties
'''),
 dict(id='c25-first-type', property='C25',
  edits=[(G, '                    self._ncell += 1\n', '                    self._ncell += elt_type == next(iter(connectivity), elt_type)\n')],
  needs='a GMSH mesh with several types of cells', breaks='the reader counts the cells of the first type only', demo=COMMON + '''
import cfdtools.gmsh as gmsh
n = msh('a.msh', 3)
r = read(gmsh.reader('a.msh'))
assert r.ncell == n, (r.ncell, n)
'''),
 dict(id='c25-count-again', property='C25',
  edits=[(G, '        self._ncell = 0\n', "        self._ncell = getattr(self, '_ncell', 0) if self.check_integrity else 0\n")],
  needs='a GMSH file read twice by a reader that checks', breaks='cells of both readings are counted', demo=COMMON + '''
import cfdtools.gmsh as gmsh
n = msh('a.msh', 3)
r = read(read(gmsh.reader('a.msh', cIntegrity=True)))
assert r.ncell == n, (r.ncell, n)
'''),
 dict(id='c25-inner-nodes', property='C25',
  edits=[(RL, 'boco.properties["slicing"] = np.unique(face2node_value[sta:sto])', 'boco.properties["slicing"] = np.arange(no_count) if boco.type == "internal" else np.unique(face2node_value[sta:sto])')],
  needs='a node that no inner face touches', breaks='the inner zone is said to hold all nodes', demo=COMMON + '''
restart('a.ic3', 7, 2, FACES, ZONES)
r = read(R.reader('a.ic3'))
assert r.mesh['bocos'][2].properties['slicing'].tolist() == [4, 5, 6], r.mesh['bocos'][2].properties
'''),
 dict(id='c25-cgns-again', property='C25',
  edits=[(CG, '        self._ncell = self._zone.ncell\n', '        if self._ncell is None:\n            self._ncell = self._zone.ncell\n')],
  needs='a CGNS file replaced by another one, and read again by the same reader', breaks='the number of cells is that of the former file', demo=COMMON + '''
import cfdtools.cgns as cgns
import h5py

def node(parent, name, label, kind='MT', data=None):
    g = parent.create_group(name)
    g.attrs['label'], g.attrs['name'], g.attrs['type'] = np.bytes_(label), np.bytes_(name), np.bytes_(kind)
    if data is not None:
        g[' data'] = data
    return g

def make(n):
    if os.path.exists('a.cgns'):
        os.remove('a.cgns')
    with h5py.File('a.cgns', 'w') as f:
        node(f, 'CGNSLibraryVersion', 'CGNSLibraryVersion_t', 'R4', np.array([3.3], dtype='f4'))
        z = node(node(f, 'Base', 'CGNSBase_t', 'I4', np.array([3, 3], dtype='i4')), 'Zone', 'Zone_t', 'I4', np.array([[4 * (n + 1)], [n], [0]], dtype='i4'))
        node(z, 'ZoneType', 'ZoneType_t', 'C1', np.frombuffer(b'Unstructured', dtype='i1'))

make(3)
r = cgns.cgnsMesh('a.cgns')
try:
    r.read_data()
    first = r.ncell
    make(2)
    r.read_data()
except Exception as x:
    raise SystemExit('%r' % x)
assert (first, r.ncell) == (3, 2), (first, r.ncell)
'''),
 dict(id='c25-empty-part', property='C25',
  edits=[(RL, '''        self.mesh["partition"]['icvpart'] = np.asarray(s)''', '''        self.mesh["partition"]['icvpart'] = np.asarray(s)
        self.mesh["partition"]['npart'] = min(h.idata[1], int(np.max(s)) + 1)''')],
  needs='a partition whose last part is empty', breaks='the number of parts is not that of the file', demo=COMMON + '''
restart('a.ic3', 7, 2, FACES, ZONES, part=(3, [1, 0]))
r = read(R.reader('a.ic3'))
assert r.mesh['partition']['npart'] == 3, r.mesh['partition']
'''),
 dict(id='c25-old-weights', property='C25',
  edits=[(RL, '        self.simulation_state = {"step": 0, "dt": 0, "time": 0, "wgt": {}}', '        self.simulation_state = {**getattr(self, "simulation_state", {}), "step": 0, "dt": 0, "time": 0, "wgt": {}}')],
  needs='a restart file replaced by one without statistics, and read again by the same reader', breaks='weights of the former file remain', demo=COMMON + '''
restart('a.ic3', 7, 2, FACES, ZONES, wgt=[('RHO_WGT', 2.5)])
r = read(R.reader('a.ic3'))
restart('a.ic3', 7, 2, FACES, ZONES)
r.read_data()
assert 'rho_wgt' not in r.simulation_state and 'rho_wgt' not in r.export_mesh()._params, r.simulation_state
'''),
 dict(id='c25-old-faces', property='C25',
  edits=[(RL, '        self.variables = {"nodes": {}, "cells": {}, "faces": {}}\n', '        self.variables = {"nodes": {}, "cells": {}, "faces": getattr(self, "variables", {}).get("faces", {})}\n')],
  needs='a restart file with fields on faces replaced by one without, and read again', breaks='face fields of the former file remain', demo=COMMON + '''
restart('a.ic3', 7, 2, FACES, ZONES, fields=[('flux', 24, (5, 0), [1., 2., 3., 4., 5.])])
r = read(R.reader('a.ic3'))
assert r.variables['faces']['flux'].tolist() == [1., 2., 3., 4., 5.]
restart('a.ic3', 7, 2, FACES, ZONES)
r.read_data()
assert not r.variables['faces'], r.variables
'''),
]
