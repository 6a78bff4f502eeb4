COMMON = '''
import os, numpy as np
import cfdtools.meshbase._mesh as M
import cfdtools.meshbase._connectivity as C
def plane(cells, pts, marks=()):
    m = M.Mesh(ncell=sum(len(c) for _, c in cells), nnode=len(pts))
    m.set_nodescoord_nd(np.array(pts, dtype=float))
    c2n = C.elem_connectivity()
    for et, c in cells: c2n.add_elems(et, np.array(c))
    m.set_cell2node(c2n)
    for name, nodes in marks:
        b = M.submeshmark(name); b.geodim = 'bdnode'; b.type = 'boundary'; b.properties['periodic_transform'] = None
        b.index = C.indexlist(ilist=list(nodes)); m.add_boco(b)
    return m
# a square and two triangles beside it
PTS = [(0,0,0),(1,0,0),(1,1,0),(0,1,0),(2,0,0),(2,1,0)]
MIX = [('quad4', [[0,1,2,3]]), ('tri3', [[1,4,5],[1,5,2]])]
'''
SEEDS = [
 dict(id='c08-mixed-number', property='C08',
  edits=[('cfdtools/meshbase/_connectivity.py', 'index[i * nelem : (i + 1) * nelem] += i * self.nelem', 'index[i * nelem : (i + 1) * nelem] += i * nelem')],
  needs='a plane mesh with triangles and quadrangles, at least two layers',
  breaks='cells of different types get the same number',
  demo=COMMON + '''
m = plane(MIX, PTS).export_extruded(extrude=[0., 1., 2., 3.])
assert m._cell2node.check()
assert sorted(m._cell2node.all_index()) == list(range(9))
'''),
 dict(id='c08-end-plane', property='C08',
  edits=[('cfdtools/meshbase/_mesh.py', 'index = self._cell2node.nodelist()\n', 'index = list(range(ntotnode))\n')],
  needs='a plane mesh with nodes that belong to no cell (a GMSH file with points of construction)',
  breaks='the mark of an end plane holds nodes of no cell',
  demo=COMMON + '''
m = plane(MIX, PTS + [(9,9,9)]).export_extruded(extrude=[0., 1.])
assert sorted(m._bocos['fluid0'].index.list()) == [0,1,2,3,4,5]
assert sorted(m._bocos['fluid1'].index.list()) == [7,8,9,10,11,12]
'''),
 dict(id='c08-direction', property='C08',
  edits=[('cfdtools/meshbase/_mesh.py', '        extrude_range = np.array(extrude)\n', '        extrude_range = np.array(extrude)\n        direction = np.array(direction) / np.linalg.norm(direction)\n')],
  needs='a direction which is not a unit vector',
  breaks='planes are not at the requested places',
  demo=COMMON + '''
m = plane(MIX, PTS).export_extruded(direction=[1., 0., 2.], extrude=[0., 1.5])
x = m.nodescoord(ndarray=True)
assert np.array_equal(x[6:], np.array(PTS) + 1.5 * np.array([1., 0., 2.]))
'''),
 dict(id='c08-mark-type', property='C08',
  edits=[('cfdtools/meshbase/_mesh.py', "            newboco.geodim = boco.geodim\n", "            if boco.index.size < 2:\n                continue\n            newboco.geodim = 'intnode' if boco.geodim == 'node' else boco.geodim\n"),
         ('cfdtools/meshbase/_mesh.py', 'nbcnode = boco.index.size', 'nbcnode = len(set(boco.index.list()[:-1])) + 1')],
  needs='a mark whose list names a node twice',
  breaks='the nodes of the mark in the upper planes are wrong',
  demo=COMMON + '''
m = plane(MIX, PTS, [('w', [0, 3, 0, 1])]).export_extruded(extrude=[0., 1., 2.])
assert set(m._bocos['w'].index.list()) == {0,1,3,6,7,9,12,13,15}
'''),
 dict(id='c08-start-plane', property='C08',
  edits=[('cfdtools/meshbase/_mesh.py', 'newcoords[i * ntotnode : (i + 1) * ntotnode, :] += s * np.array(direction)',
          'newcoords[i * ntotnode : (i + 1) * ntotnode, :] += (s - min(0.0, extrude_range[0])) * np.array(direction)')],
  needs='a list of planes that begins below zero',
  breaks='the extruded mesh is shifted',
  demo=COMMON + '''
m = plane(MIX, PTS).export_extruded(extrude=[-0.5, 0.5])
assert np.array_equal(m.nodescoord(ndarray=True)[:, 2], [-0.5]*6 + [0.5]*6)
'''),
]
