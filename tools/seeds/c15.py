COMMON = '''
import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import cfdtools.data as data
import cfdtools.meshbase._connectivity as conn
import cfdtools.meshbase._mesh as _mesh
from cfdtools.meshbase.simple import Cube
from cfdtools.ic3 import readerV4, writerV4, writerV2, reader_legacy
os.chdir(os.environ['SCRATCH'])
def cube(marks=()):
    m = Cube(2, 2, 2).export_mesh()
    m._bocos.clear()
    for name, kind, per, axis, value in marks:
        b = _mesh.submeshmark(name)
        b.geodim = 'bdnode'
        b.type = kind
        b.properties['periodic_transform'] = per
        b.index = conn.indexlist(ilist=np.where(np.isclose(m._nodes[axis], value))[0].tolist())
        m._bocos.pop(name, None)
        m.add_boco(b)
    return m
def load(mesh, sol=None):
    r = readerV4.reader(mesh, sol)
    r.read_data()
    return r.export_mesh()
def walls(m):
    """faces (by their nodes) of every mark"""
    f2n, _ = m.export_mixedfaces() if 'mixed' not in m._faces else (m._faces['mixed']['face2node'], None)
    all_ = dict((i, tuple(sorted(w))) for i, w in f2n.index_elem_tuples())
    return {k: sorted(all_[i] for i in b.index.list()) for k, b in m._bocos.items() if b.type != 'internal'}
def fields(m, **kw):
    d = data.DataSet('cellaverage')
    for k, v in kw.items():
        d.add_data(k, v)
    m.set_celldata(d)
    return m
'''
W = 'cfdtools/ic3/writerV4.py'
R = 'cfdtools/ic3/readerV4.py'
SEEDS = [
 dict(id='c15-last-mark', property='C15',
  edits=[(W, "            last_boco = max(last_boco, ifmax)\n", "            last_boco = ifmax\n")],
  needs='marks whose ranges are not in the order of the faces, as a reader of version 2 may leave them', breaks='internal faces overlap marks and a mark reads back with other faces', demo=COMMON + '''
m = cube()
m._bocos.clear()
writerV4.writer(m).write_data('one.h5')
one = load('one.h5')
n = len([b for b in one._bocos.values() if b.type != 'internal'][0].index.list())
one._bocos.clear()
for name, a, b in (('last', n // 2, n - 1), ('first', 0, n // 2 - 1)):
    k = _mesh.submeshmark(name)
    k.geodim, k.type, k.index = 'bdface', 'boundary', conn.indexlist(irange=[a, b])
    one.add_boco(k)
ref = walls(one)
writerV4.writer(one).write_data('two.h5')
assert walls(load('two.h5')) == ref
'''),
 dict(id='c15-cyl-angle', property='C15',
  edits=[(W, '                if boco.properties["periodic_transform"] is not None:\n', '                if boco.type == \'perio_cart\' and boco.properties["periodic_transform"] is not None:\n')],
  needs='a mark with cylindrical periodicity', breaks='its angle is lost', demo=COMMON + '''
m = cube([('a', 'perio_cylx', np.array([0.25, 0., 0.]), 'x', 0.0)])
writerV4.writer(m).write_data('one.h5')
assert load('one.h5')._bocos['a'].properties['periodic_transform'][0] == 0.25
'''),
 dict(id='c15-ravel-k', property='C15',
  edits=[(W, "            volume_group.create_dataset(cvname.lower(), data=cvdata.ravel(order='C'), dtype='f8')\n",
          "            volume_group.create_dataset(cvname.lower(), data=cvdata.ravel(order='K'), dtype='f8')\n")],
  needs='a vector statistic stored by components (Fortran order)', breaks='its components are mixed up', demo=COMMON + '''
v = np.arange(24.0).reshape(8, 3)
m = fields(cube(), U_AVG=np.asfortranarray(v))
writerV4.writer(m).write_data('one.h5', 'sol.h5')
import h5py
with h5py.File('sol.h5', 'r') as f:
    assert np.array_equal(f['VolumeStats/u_avg'][()], v.ravel())
'''),
 dict(id='c15-stat-suffix', property='C15',
  edits=[(W, "if any(x in var for x in ['_AVG', '_RMS', '_REY'])\n", "if any(var.endswith(x) for x in ['_AVG', '_RMS', '_REY'])\n")],
  needs='a statistic whose name goes on after the kind, like U_REY_XY', breaks='it is not written', demo=COMMON + '''
import h5py
m = fields(cube(), U_AVG=np.arange(8.0), U_REY_XY=np.arange(8.0))
writerV4.writer(m).write_data('one.h5', 'sol.h5')
with h5py.File('sol.h5', 'r') as f:
    assert sorted(f['VolumeStats']) == ['u_avg', 'u_rey_xy']
'''),
 dict(id='c15-label-32', property='C15',
  edits=[(W, "encoding='utf-8', length=128)", "encoding='utf-8', length=32)")],
  needs='marks with names of more than 32 characters', breaks='names are cut', demo=COMMON + '''
name = 'upper_wall_of_the_secondary_combustion_chamber'
m = cube([(name, 'boundary', None, 'x', 0.0)])
writerV4.writer(m).write_data('one.h5')
assert name in load('one.h5')._bocos
'''),
 dict(id='c15-known-attrs', property='C15',
  edits=[(R, "        for name in fid.attrs:\n            self.simulation_state[name] = fid.attrs[name]\n",
          "        for name in fid.attrs:\n            if name in self.simulation_state:\n                self.simulation_state[name] = fid.attrs[name]\n")],
  needs='a solution with statistics and weights that is converted again', breaks='the weights of the statistics are lost', demo=COMMON + '''
m = fields(cube(), U_AVG=np.arange(8.0), RHO=np.ones(8), RHOU=np.ones((8, 3)), RHOE=np.ones(8))
m.set_params({'step': 4, 'time': 0.5, 'wgt': {'u_avg': 2.5}})
writerV4.writer(m).write_data('one.h5', 'sol.h5')
assert writerV2.writer(load('one.h5', 'sol.h5')).simstate['wgt'] == {'u_avg': 2.5}
'''),
]
