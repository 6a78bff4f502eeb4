COMMON = '''
import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import cfdtools._cli as cli
import cfdtools.api as api
import cfdtools.data as data
import cfdtools.ic3 as ic3
import cfdtools.meshbase.simple as simple
os.chdir(os.environ['SCRATCH'])
def cube(name='in.ic3', nd=(), cd=()):
    m = simple.Cube(1, 1, 2).export_mesh()
    for names, put, rep, a in ((nd, m.set_nodedata, 'nodal', np.arange(12.)), (cd, m.set_celldata, 'cellaverage', np.array([1., 2.]))):
        if names:
            d = data.DataSet(rep)
            for n in names:
                d.add_data(n, a)
            put(d)
    ic3.writerV3.writer(m).write_data(name)
    return name
def ic3read(name):
    r = ic3.reader(name)
    r.read_data()
    return r.export_mesh()
MSH = """$MeshFormat
2.2 0 8
$EndMeshFormat
$PhysicalNames
2
1 1 "wall"
2 2 "fluid"
$EndPhysicalNames
$Nodes
6
1 0 0 0
2 1 0 0
3 2 0 0
4 0 1 0
5 1 1 0
6 2 1 0
$EndNodes
$Elements
3
1 1 2 1 1 1 2
2 3 2 2 1 1 2 5 4
3 3 2 2 1 2 3 6 5
$EndElements
"""
'''
F = 'cfdtools/_cli.py'
SEEDS = [
 dict(id='c09-scale-half', property='C09',
  edits=[(F, "    if parser.args().scale:\n        cfdmesh.scale", "    if parser.args().scale and (np.prod(parser.args().scale) != 1.0):\n        cfdmesh.scale")],
  needs='three factors, not all 1, whose product is 1', breaks='the scaling is not applied', demo=COMMON + '''
o = cli.cfdwrite_ic3v3([cube(), '--scale', '2', '0.5', '1'])
assert ic3read(o).nodescoord()[0].max() == 2.
'''),
 dict(id='c09-layers', property='C09',
  edits=[(F, "np.linspace(0.0, 1.0, nz + 1, endpoint=True)", "np.arange(0.0, 1.0 + 1.0 / nz, 1.0 / nz)")],
  needs='a number of layers for which the accumulated rounding gives one plane more (3, 6, 7...)', breaks='one layer more than asked for', demo=COMMON + '''
open('m.msh', 'w').write(MSH)
for nz in range(1, 60):
    m = ic3read(cli.cfdwrite_ic3v3(['m.msh', '--extrude', str(nz), '--scale', '1', '1', '4']))
    assert (m.ncell, m.nnode) == (2 * nz, 6 * (nz + 1)), nz
'''),
 dict(id='c09-remove-both', property='C09',
  edits=[(F, "    if parser.args().remove_cell_data:\n", "    if parser.args().remove_cell_data and not parser.args().remove_node_data:\n")],
  needs='cell data and node data removed by one command', breaks='the cell data stay', demo=COMMON + '''
r = ic3read(cli.cfdwrite_ic3v3(['--remove-cell-data', 'P', '--remove-node-data', 'T', '--', cube(nd=['T', 'U'], cd=['P'])]))
assert sorted(dict(r._nodedata.items())) == ['U'] and not dict(r._celldata.items())
'''),
 dict(id='c09-remove-stop', property='C09',
  edits=[(F, "            if cfdmesh.pop_celldata(var) is None:\n                log.info(f\"  cannot find cell data {var}\")\n", "            if cfdmesh.pop_celldata(var) is None:\n                log.info(f\"  cannot find cell data {var}\")\n                break\n")],
  needs='a list of cell data to remove where an unknown name comes before a known one', breaks='the data after the unknown name are kept', demo=COMMON + '''
o = cli.cfdwrite_ic3v2(['--remove-cell-data', 'NOPE', 'P', '--', cube(cd=['P', 'T'])])
assert sorted(dict(ic3read(o)._celldata.items())) == ['T']
'''),
 dict(id='c09-order', property='C09',
  edits=[(F, "        cfdmesh = cfdmesh.export_extruded(extrude=np.linspace(0.0, 1.0, nz + 1, endpoint=True))\n        timer.stop(nelem=nz * ncell)\n    if parser.args().scale:\n        cfdmesh.scale(parser.args().scale)\n",
          "        if parser.args().scale:\n            cfdmesh.scale(parser.args().scale)\n        cfdmesh = cfdmesh.export_extruded(extrude=np.linspace(0.0, 1.0, nz + 1, endpoint=True))\n        timer.stop(nelem=nz * ncell)\n    elif parser.args().scale:\n        cfdmesh.scale(parser.args().scale)\n")],
  needs='extrusion and scaling in one command, with a third factor other than 1', breaks='the extruded direction is not scaled', demo=COMMON + '''
open('m.msh', 'w').write(MSH)
m = ic3read(cli.cfdwrite_ic3v3(['m.msh', '--extrude', '2', '--scale', '2', '2', '5']))
assert m.nodescoord()[2].max() == 5.
'''),
 dict(id='c09-dotted', property='C09',
  edits=[('cfdtools/api.py', "        self._path = self._path.with_suffix(ext)", "        while self._path.suffix not in ('', ext):\n            self._path = self._path.with_suffix('')\n        self._path = self._path.with_suffix(ext)")],
  needs='an input whose name has several dots', breaks='the output of mesh.v1.msh and that of mesh.v2.msh have the same name', demo=COMMON + '''
open('m.v1.msh', 'w').write(MSH)
assert cli.cfdwrite_ic3v2(['m.v1.msh', '--extrude', '1']) == 'm.v1.ic3'
'''),
]
