COMMON = '''
import os, numpy as np
import cfdtools.api as api
import cfdtools.meshbase._mesh as M
import cfdtools.meshbase._connectivity as C
import cfdtools.data as D
from cfdtools.meshbase.simple import Cube
import cfdtools.ic3.writerV2 as w2, cfdtools.ic3.writerV3 as w3, cfdtools.ic3.reader_legacy as rl
F = os.environ['SCRATCH'] + '/f.ic3'
def read(f=F, **kw):
    r = rl.reader(f, **kw); r.read_data(); return r.export_mesh()
def same(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b))
'''
SEEDS = [
 dict(id='c02-perio-12', property='C02',
  edits=[('cfdtools/ic3/reader_legacy.py', 'boco.properties["periodic_transform"] = h.rdata\n',
          'boco.properties["periodic_transform"] = h.rdata[:12] + [0.0] * 4\n')],
  needs='a periodic mark with a transform of more than 12 components (a full 4x4 matrix)',
  breaks='the last components of the transform of a periodic mark are lost when the file is read',
  demo=COMMON + '''
m = Cube(2,2,1).export_mesh()
per = [float(i+1) for i in range(16)]
m._bocos['imin'].type = 'perio_cylx'; m._bocos['imin'].properties['periodic_transform'] = per
w2.writer(m).write_data(F)
assert same(read()._bocos['imin'].properties['periodic_transform'], per)
'''),
 dict(id='c02-npart', property='C02',
  edits=[('cfdtools/ic3/writerV2.py', "header.idata[1] = self.params['partition'].get('npart', 1)",
          "header.idata[1] = len(np.unique(self.params['partition'].get('icvpart', [0])))")],
  needs='a partition one part of which has no cell',
  breaks='the number of parts of the partition is not the one of the mesh',
  demo=COMMON + '''
m = Cube(2,2,1).export_mesh()
m.set_partition({'npart': 4, 'icvpart': np.array([0,3,3,1], dtype=np.int32)})
w3.writer(m).write_data(F)
p = read()._cellprop['partition']
assert p['npart'] == 4 and same(p['icvpart'], [0,3,3,1])
'''),
 dict(id='c02-coord-kept', property='C02',
  edits=[('cfdtools/ic3/writerV2.py', "self.coordinates = np.stack([self._mesh._nodes[c] for c in 'xyz'], axis=1)",
          "self.coordinates = np.round(np.stack([self._mesh._nodes[c] for c in 'xyz'], axis=1), 15)")],
  needs='coordinates with digits beyond the 15th decimal (small lengths)',
  breaks='coordinates are not the same bits after a cycle',
  demo=COMMON + '''
m = Cube(2,2,1).export_mesh()
m.scale([1e-12, 1/3, 1e5/7])
x = m.nodescoord(ndarray=True).copy()
w2.writer(m).write_data(F)
assert same(read().nodescoord(ndarray=True), x)
'''),
 dict(id='c03-ravel-k', property='C03',
  edits=[('cfdtools/ic3/writerV3.py', '"d" * totsize * 3,\n                    cvdata.ravel(order=\'C\'),', '"d" * totsize * 3,\n                    cvdata.ravel(order=\'K\'),')],
  needs='a cell vector stored by components in memory (Fortran order), written in version 3',
  breaks='the components of cell vectors are mixed up',
  demo=COMMON + '''
m = Cube(3,2,1).export_mesh()
d = D.DataSet('cellaverage'); v = np.arange(18.).reshape(3,6).T
d.add_data('U', v); m.set_celldata(d)
w3.writer(m).write_data(F)
assert same(read()._celldata['U'], v)
'''),
 dict(id='c03-name-51', property='C03',
  edits=[('cfdtools/ic3/_ic3.py', '                i < ic3_restart_codes["UGP_IO_HEADER_NAME_LEN"]\n            ):  # remove trailing spaces',
          '                i < ic3_restart_codes["UGP_IO_HEADER_NAME_LEN"] - 1\n            ):  # remove trailing spaces')],
  needs='a field name of exactly 52 characters',
  breaks='the last character of the longest names is lost',
  demo=COMMON + '''
m = Cube(3,2,1).export_mesh()
d = D.DataSet('nodal'); n = 'x' * 51 + 'y'
d.add_data(n, np.arange(24.)); m.set_nodedata(d)
w3.writer(m).write_data(F)
assert list(read()._nodedata.keys()) == [n]
'''),
 dict(id='c03-ndof-scalar', property='C03',
  edits=[('cfdtools/ic3/reader_legacy.py', 'ndof * cv_count * 3,\n                )\n', 'ndof * cv_count * 3,\n                )\n')],
  needs='x', breaks='x', demo='raise SystemExit(1)'),
 dict(id='c04-three-nodes', property='C04',
  edits=[('cfdtools/meshbase/_mesh.py', 'return all(map(lambda n: n in nodelist, face))', 'return all(map(lambda n: n in nodelist, face[:3]))')],
  needs='a node mark with the first three nodes of a quadrangle and not the fourth',
  breaks='a node mark takes a face one node of which it does not hold',
  demo=COMMON + '''
for perm in ([0,1,2,3],[1,2,3,0],[2,3,0,1],[3,0,1,2]):
    for q in ([0,1,2,3],[0,1,3,4][:0] or [0,1,5,4],[4,5,6,7]):
        m = M.Mesh(1, 8)
        X = np.array([[0,0,0],[1,0,0],[1,1,0],[0,1,0],[0,0,1],[1,0,1],[1,1,1],[0,1,1]], float)
        m.set_nodescoord_nd(X)
        c = C.elem_connectivity(); c.add_elems('hexa8', np.arange(8).reshape(1,8)); m.set_cell2node(c)
        b = M.submeshmark('a'); b.geodim = 'bdnode'; b.type = 'boundary'
        b.index = C.indexlist(ilist=[q[i] for i in perm][:3]); m.add_boco(b)
        m.make_face_connectivity(); m.bocomarks_set_node_to_face()
        assert m._bocos['a'].index.list() == [], (perm, q)
'''),
 dict(id='c04-inverse-perm', property='C04',
  edits=[('cfdtools/meshbase/_mesh.py', "self._faces['boundary']['face2cell'].conn[oldindex, :]", "self._faces['boundary']['face2cell'].conn[newindex, :]")],
  needs='marks whose renumbering of the faces is not its own inverse, faces of different cells',
  breaks='after renumbering, boundary faces belong to the cell of another face',
  demo=COMMON + '''
m = Cube(3,2,2).export_mesh()
for n in ('imin', 'jmax', 'kmin'): m.remove_boco(n)
m._bocos = {k: m._bocos[k] for k in ('kmax', 'imax', 'jmin')}
def own(m):
    f = m._faces['boundary']; c = f['face2cell'].conn
    return {frozenset(w): int(c[i,0]) for i, w in f['face2node'].index_elem_tuples()}
m.make_face_connectivity(); a = own(m)
m.bocomarks_set_node_to_face(); m.make_unmarked_BC(); m.reindex_boundaryfaces()
assert own(m) == a
'''),
 dict(id='c05-last-boco', property='C05',
  edits=[('cfdtools/ic3/writerV2.py', 'last_boco = max(last_boco, ifmax)', 'last_boco = ifmax')],
  needs='a file whose zones are not in the order of their faces, read then written again',
  breaks='the zone of internal faces overlaps boundary zones: zones do not tile the faces',
  demo=COMMON + '''
m = Cube(2,2,1).export_mesh()
w2.writer(m).write_data(F)
m = read()
m._bocos = {k: m._bocos[k] for k in reversed(list(m._bocos))}
w2.writer(m).write_data(F)
m = read()
z = sorted(tuple(b.index.range()) for b in m._bocos.values())
assert z[0][0] == 0 and z[-1][1] == m.nface - 1 and all(a[1] + 1 == b[0] for a, b in zip(z, z[1:])), z
'''),
 dict(id='c06-eof-optional', property='C06',
  edits=[('cfdtools/ic3/_ic3.py', '            s = list(BinaryRead(bfile, self.binstr, byte_swap, self.hsize))\n',
          '            record = BinaryRead(bfile, self.binstr, byte_swap, self.hsize)\n            if record is None:  # end of file\n                break\n            s = list(record)\n')],
  needs='a file cut after the sections that hold the mesh',
  breaks='a file without its last sections is read as if it were complete',
  demo=COMMON + '''
m = Cube(2,2,1).export_mesh()
d = D.DataSet('cellaverage'); d.add_data('a', np.arange(4.)); d.add_data('b', np.arange(4.)); m.set_celldata(d)
w2.writer(m).write_data(F)
b = open(F,'rb').read()
for n in (256, 257, 512, 512+32, 512+33):
    open(F,'wb').write(b[:-n])
    try: read()
    except BaseException: continue
    raise SystemExit(1)
'''),
 dict(id='c06-noofa-count', property='C06',
  edits=[('cfdtools/ic3/reader_legacy.py', '        assert h.idata[0] == fa_count\n        assert h.idata[1] == noofa_count\n', '        assert h.idata[0] == fa_count\n        noofa_count = self.mesh["params"]["noofa_count"] = h.idata[1]\n')],
  needs='a file whose COUNTS and NOOFA sections announce different numbers of nodes of faces',
  breaks='a file with repeated counts that disagree is accepted',
  demo=COMMON + '''
import struct
m = Cube(2,2,1).export_mesh()
w2.writer(m).write_data(F)
b = bytearray(open(F,'rb').read())
p = 8 + 64 + 8*3
v, = struct.unpack_from('<q', b, p); struct.pack_into('<q', b, p, v+1)
open(F,'wb').write(b)
try: read()
except BaseException: raise SystemExit(0)
raise SystemExit(1)
'''),
 dict(id='c06-nocheck-count', property='C06',
  edits=[('cfdtools/ic3/reader_legacy.py', '                assert h.idata[0] == no_count\n                assert h.id[0] == ic3_restart_codes["UGP_IO_NO_CHECK"]\n', '                assert h.id[0] == ic3_restart_codes["UGP_IO_NO_CHECK"]\n')],
  needs='a version 2 file with a bad count in its node check section, read with the integrity check',
  breaks='a damaged check section is accepted',
  demo=COMMON + '''
import struct
m = Cube(2,2,1).export_mesh()
w2.writer(m).write_data(F)
b = bytearray(open(F,'rb').read())
p = 8 + 256 + 64
v, = struct.unpack_from('<q', b, p); assert v == m.nnode; struct.pack_into('<q', b, p, v+1)
open(F,'wb').write(b)
try: read(cIntegrity=True)
except BaseException: raise SystemExit(0)
raise SystemExit(1)
'''),
]
SEEDS = [s for s in SEEDS if s['needs'] != 'x']
