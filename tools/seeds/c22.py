COMMON = '''
import os, sys
sys.path.insert(0, os.getcwd())
import itertools
import numpy as np
import cfdtools.meshbase.simple as simple
os.chdir(os.environ['SCRATCH'])
'''
F = 'cfdtools/meshbase/simple.py'
SEEDS = [
 dict(id='c22-small-index', property='C22',
  edits=[(F, "        ei, ej, ek = map(np.array, zip(*self.elem_ijk()))", "        ei, ej, ek = map(lambda c: np.array(c, dtype=np.int16), zip(*self.elem_ijk()))")],
  needs='a box of more than 32767 nodes', breaks='numbers of nodes of cells wrap around', demo=COMMON + '''
m = simple.Cube(1, 1, 9000).export_mesh()
h = np.array(dict(m._cell2node.items())['hexa8']['elem2node'])
assert h.min() == 0 and h.max() == m.nnode - 1
'''),
 dict(id='c22-jmax-z', property='C22',
  edits=[(F, "            'jmax': {'ijknodes': product(range(self._nx + 1), [self._ny], range(self._nz + 1))},", "            'jmax': {'ijknodes': product(range(self._nx + 1), [self._ny], range(min(self._nx, self._nz) + 1))},")],
  needs='more cells in the third direction than in the first', breaks='the mark of one side lacks nodes', demo=COMMON + '''
m = simple.Cube(1, 2, 3).export_mesh()
y = m.nodescoord()[1]
assert sorted(m.seekmark('jmax').index.list()) == np.flatnonzero(y == 1).tolist()
'''),
 dict(id='c22-cell-number', property='C22',
  edits=[(F, "        return k + self._nz * (j + self._ny * i)", "        return k + self._nz * j + max(self._nz, self._ny) * self._ny * i")],
  needs='more cells in the second direction than in the third', breaks='cell numbers have gaps', demo=COMMON + '''
m = simple.Cube(2, 3, 1).export_mesh()
assert sorted(dict(m._cell2node.items())['hexa8']['index'].list()) == list(range(6))
'''),
 dict(id='c22-node-plane', property='C22',
  edits=[(F, "        return k + (self._nz + 1) * (j + (self._ny + 1) * i)", "        return k + (self._nz + 1) * j + (self._nz + 1) * (min(self._nx, self._ny) + 1) * i")],
  needs='fewer cells in the first direction than in the second', breaks='nodes of cells and marks are those of other lattice points', demo=COMMON + '''
m = simple.Cube(1, 3, 2).export_mesh()
x = m.nodescoord()[0]
assert sorted(m.seekmark('imax').index.list()) == np.flatnonzero(x == 1).tolist()
'''),
 dict(id='c22-command-size', property='C22',
  edits=[('cfdtools/_cli.py', "    nx, ny, nz = parser.args().nx, parser.args().ny, parser.args().nz\n    #\n    log.info(f\"> create", "    nx, ny = sorted((parser.args().nx, parser.args().ny))\n    nz = parser.args().nz\n    #\n    log.info(f\"> create")],
  needs='a box requested with more cells along x than along y', breaks='the sizes of the first two directions are exchanged in the file', demo=COMMON + '''
import cfdtools._cli as cli
import cfdtools.ic3.reader_legacy as rl
cli.cfdwritecube(['--nx', '3', '--ny', '1', '--nz', '2', 'c.ic3'])
r = rl.reader('c.ic3'); r.read_data()
x, y, z = r.export_mesh().nodescoord()
assert len(set(x)) == 4 and len(set(y)) == 2
'''),
]
