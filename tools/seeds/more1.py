COMMON = '''
import os, sys, itertools
sys.path.insert(0, os.getcwd())
import numpy as np
import cfdtools.meshbase._mesh as M
import cfdtools.meshbase._connectivity as C
import cfdtools.meshbase.simple as simple
import cfdtools.data as D
import cfdtools.ic3.writerV2 as w2
import cfdtools.ic3.writerV3 as w3
import cfdtools.ic3.reader_legacy as R
os.chdir(os.environ['SCRATCH'])

def back(name, **kw):
    r = R.reader(name, **kw)
    r.read_data()
    return r.export_mesh()

def walks(m, kind='mixed'):
    return dict(m._faces[kind]['face2node'].index_elem_tuples())

def mark(m, name, nodes, geodim='bdnode', tp='boundary'):
    b = M.submeshmark(name)
    b.geodim = geodim
    b.type = tp
    b.properties['periodic_transform'] = None
    b.index = C.indexlist(ilist=list(nodes))
    m.add_boco(b)
    return b

def side(m, axis, value):
    x = m.nodescoord(ndarray=True)
    return np.flatnonzero(x[:, axis] == value).tolist()
'''
CONN, MESH, W2, W3, RD, IC3 = ('cfdtools/meshbase/_connectivity.py', 'cfdtools/meshbase/_mesh.py', 'cfdtools/ic3/writerV2.py', 'cfdtools/ic3/writerV3.py',
                              'cfdtools/ic3/reader_legacy.py', 'cfdtools/ic3/_ic3.py')
SEEDS = [
 dict(id='c01-lone-cell', property='C01',
  edits=[(CONN, 'ind = indexlist(irange=[self._nelem, self._nelem + dim - 1]) if index is None else index', 'ind = indexlist(irange=[self._nelem, self._nelem + dim - 1]) if index is None or dim == 1 else index')],
  needs='a type with a single cell whose number is not that of the cells listed before it', breaks='this cell gets the number of another one',
  demo=COMMON + '''
c = C.elem_connectivity()
c.add_elems('hexa8', np.array([[0,1,2,3,4,5,6,7]]), C.indexlist(ilist=[2]))
c.add_elems('pyra5', np.array([[4,5,6,7,8],[0,3,2,1,9]]), C.indexlist(ilist=[0, 1]))
m = M.Mesh(ncell=3, nnode=10)
m.set_nodescoord_nd(np.zeros((10, 3)))
m.set_cell2node(c)
m.make_face_connectivity()
f = m._faces['internal']
assert sorted(map(sorted, f['face2cell'].conn.tolist())) == [[0, 2], [1, 2]]
'''),
 dict(id='c02-listed-order', property='C02',
  edits=[(CONN, 'concat = sorted(self.index_elem_tuples())', 'concat = self.index_elem_tuples()\n        if len(self._elem2node) > 1:\n            concat.sort()')],
  needs='faces of one type only, that are not listed in the order of their numbers', breaks='nodes are written for another face than their own',
  demo=COMMON + '''
m = simple.Cube(2, 1, 1).export_mesh()
for k, (a, v) in enumerate(((0, 1.), (2, 0.), (1, 0.), (0, 0.), (1, 1.), (2, 1.))):
    mark(m, f'm{k}', side(m, a, v))
for n in ('imin', 'imax', 'jmin', 'jmax', 'kmin', 'kmax'):
    m.remove_boco(n) if n in m._bocos else None
w3.writer(m).write_data('a.ic3')
b = back('a.ic3')
w = walks(b)
x = b.nodescoord(ndarray=True)
for k, (a, v) in enumerate(((0, 1.), (2, 0.), (1, 0.), (0, 0.), (1, 1.), (2, 1.))):
    for i in b._bocos[f'm{k}'].index.list():
        assert np.all(x[w[i], a] == v), (k, i)
'''),
 dict(id='c02-zero-time', property='C02',
  edits=[(W2, '            for key in self.simstate.keys():\n                if key in refdict.keys():', '            for key in self.simstate.keys():\n                if key in refdict.keys() and (key != "dt" or refdict["dt"] > 0):')],
  needs='a negative time step (a computation that goes backwards)', breaks='the time step is written as zero',
  demo=COMMON + '''
m = simple.Cube(1, 1, 1).export_mesh()
m.set_params({'step': 3, 'dt': -0.5, 'time': 1.5})
w2.writer(m).write_data('a.ic3')
assert back('a.ic3')._params['dt'] == -0.5
'''),
 dict(id='c03-tensor-t', property='C03',
  edits=[(W3, '''                    "d" * totsize * 9,
                    cvdata.ravel(order='C'),''', '''                    "d" * totsize * 9,
                    cvdata.ravel(order='C' if cvdata.flags.c_contiguous else 'K'),''')],
  needs='a cell tensor in another layout in memory (a transposed view)', breaks='the components of the tensors are written in the order of the memory',
  demo=COMMON + '''
m = simple.Cube(2, 1, 1).export_mesh()
t = np.arange(18.).reshape(2, 3, 3).transpose(0, 2, 1)
d = D.DataSet('cellaverage')
d.add_data('tau', t)
m.set_celldata(d)
w3.writer(m).write_data('a.ic3')
assert np.array_equal(back('a.ic3')._celldata['tau'], t)
'''),
 dict(id='c04-all-lists', property='C04',
  edits=[(W2, "        if any([boco.index.type == 'list' for _, boco in self._mesh._bocos.items()]):", "        if all([boco.index.type == 'list' for _, boco in self._mesh._bocos.items()]):")],
  needs='one mark that is a range already and another one that is a list', breaks='the marks are not renumbered, and the mesh cannot be written',
  demo=COMMON + '''
m = simple.Cube(2, 2, 2).export_mesh()
m._bocos.clear()
m.make_face_connectivity()
b = mark(m, 'some', [0], 'bdface')
b.index = C.indexlist(irange=[3, 6])
mark(m, 'other', [8, 1, 20], 'bdface')
w3.writer(m).write_data('a.ic3')
r = back('a.ic3')
assert r._bocos['some'].index.size == 4 and r._bocos['other'].index.size == 3
'''),
 dict(id='c04-second-type', property='C04',
  edits=[(MESH, "        for _, fdict in self._faces['boundary']['face2node'].items():\n            fdict['index'] = _conn.indexlist(ilist=newindex[fdict['index'].list()].tolist())\n",
                "        shift = 0\n        for _, fdict in self._faces['boundary']['face2node'].items():\n            nf = len(fdict['index'].list())\n            fdict['index'] = _conn.indexlist(ilist=newindex[shift : shift + nf].tolist())\n            shift += nf\n")],
  needs='boundary faces whose numbers are not in the order of their types', breaks='faces get the new number of other faces',
  demo=COMMON + '''
m = M.Mesh(ncell=1, nnode=6)
m.set_nodescoord_nd(np.array([[0,0,0],[1,0,0],[0,1,0],[0,0,1],[1,0,1],[0,1,1]], float))
c = C.elem_connectivity()
c.add_elems('prism6', np.array([[0,1,2,3,4,5]]))
m.set_cell2node(c)
m.make_face_connectivity()
f = m._faces['boundary']['face2node']
old = dict(f.index_elem_tuples())
mark(m, 'b', [4, 1], 'bdface')
mark(m, 'a', [0, 2, 3], 'bdface')
for _ in range(2):
    m.reindex_boundaryfaces()
    new = dict(f.index_elem_tuples())
    assert sorted(sorted(new[i]) for i in m._bocos['b'].index.list()) == sorted(sorted(old[i]) for i in (4, 1)), new
    m._bocos['a'].index.set_list(m._bocos['a'].index.list()[::-1])
    m._bocos['a'], = [m._bocos.pop('a')]
    m._bocos = dict(reversed(list(m._bocos.items())))
'''),
 dict(id='c05-unknown-stop', property='C05',
  edits=[(IC3, '            if self.id[0] == ic3_restart_codes["UGP_IO_EOF"]:\n                break', '            if self.id[0] == ic3_restart_codes["UGP_IO_EOF"] or self.id[0] < 0:\n                break')],
  needs='an additional section whose identifier is negative', breaks='the sections after it are not found',
  demo=COMMON + '''
import struct
m = simple.Cube(1, 1, 1).export_mesh()
w3.writer(m, endian='little').write_data('a.ic3')
b = open('a.ic3', 'rb').read()
extra = bytes(b'SOMETHING') + bytes(43) + struct.pack('<iq', -77, 256) + bytes(192)
open('b.ic3', 'wb').write(b[:8] + extra + b[8:])
assert back('b.ic3').nnode == 8
'''),
 dict(id='c06-parts', property='C06',
  edits=[(RD, '        h.readReqVar(self.fid, self.byte_swap, ["UGP_IO_NOOFA_I_AND_V"])\n        assert h.idata[0] == fa_count\n', '        h.readReqVar(self.fid, self.byte_swap, ["UGP_IO_NOOFA_I_AND_V"])\n        assert h.idata[0] >= fa_count\n')],
  needs='a face-to-node section that announces more faces than the counts', breaks='a file whose repeated counts disagree is accepted',
  demo=COMMON + '''
import struct
m = simple.Cube(1, 1, 1).export_mesh()
w3.writer(m, endian='little').write_data('a.ic3')
b = bytearray(open('a.ic3', 'rb').read())
p = 8
while struct.unpack_from('<i', b, p + 52)[0] != R.ic3_restart_codes['UGP_IO_NOOFA_I_AND_V']:
    p += struct.unpack_from('<q', b, p + 56)[0]
struct.pack_into('<q', b, p + 64, struct.unpack_from('<q', b, p + 64)[0] + 1)
open('b.ic3', 'wb').write(b)
try:
    back('b.ic3')
except BaseException:
    pass
else:
    raise SystemExit('accepted')
'''),
 dict(id='c06-cells-check', property='C06',
  edits=[(RD, '                assert h.idata[0] == cv_count\n                assert h.id[0] == ic3_restart_codes["UGP_IO_CV_CHECK"]\n', '                cv_count = max(cv_count, h.idata[0])\n                assert h.id[0] == ic3_restart_codes["UGP_IO_CV_CHECK"]\n')],
  needs='a version 2 file whose cell check section announces fewer cells, read with the integrity check', breaks='the damaged file is accepted',
  demo=COMMON + '''
import struct
m = simple.Cube(2, 1, 1).export_mesh()
w2.writer(m, endian='little').write_data('a.ic3')
b = bytearray(open('a.ic3', 'rb').read())
p = 8
while struct.unpack_from('<i', b, p + 52)[0] != R.ic3_restart_codes['UGP_IO_CV_CHECK']:
    p += struct.unpack_from('<q', b, p + 56)[0]
struct.pack_into('<q', b, p + 64, 1)
open('b.ic3', 'wb').write(b)
back('a.ic3', cIntegrity=True)
try:
    back('b.ic3', cIntegrity=True)
except BaseException:
    pass
else:
    raise SystemExit('accepted')
'''),
]
