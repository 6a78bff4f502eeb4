COMMON = '''
import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import h5py
import pyvista as pv
import xml.etree.ElementTree as ET
import cfdtools.vtk as vtk
import cfdtools.data as data
from cfdtools.hdf5 import h5File
from cfdtools.meshbase.simple import Cube
os.chdir(os.environ['SCRATCH'])
CUBE = np.array([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)], dtype=float)
def cube(size=1.0):
    return pv.UnstructuredGrid(np.array([8] + list(range(8))), np.array([12], dtype=np.uint8), CUBE * size)
def tetra():
    return pv.UnstructuredGrid(np.array([4, 0, 1, 3, 4]), np.array([10], dtype=np.uint8), CUBE[:5].copy())
def content(name, path):
    with h5py.File(name, 'r') as f:
        return f[path][()]
'''
V = 'cfdtools/vtk/_vtk.py'
SEEDS = [
 dict(id='c14-time-zero', property='C14',
  edits=[('cfdtools/data.py', "                    datagroup.attrs[vname] = var\n", "                    if np.any(var):\n                        datagroup.attrs[vname] = var\n")],
  needs='a file of the series at time zero', breaks='the time of this file is not dumped', demo=COMMON + '''
dl = data.DataSetList(2)
dl.set_mesh(vtk.vtkMesh(pvmesh=cube()).export_mesh())
dl.add_datalist({'Q': np.ones(1)}, time=0.0)
dl.add_datalist({'Q': np.ones(1)}, time=2.0)
with h5py.File(dl.dumphdf('t.h5'), 'r') as f:
    assert [float(f['datalist'][k].attrs['time']) for k in ('i000000', 'i000001')] == [0.0, 2.0]
'''),
 dict(id='c14-xmf-fields', property='C14',
  edits=[('cfdtools/data.py', "                vname: datadict[vname] for vname in datadict if vname not in self._property_names\n", "                vname: datadict[vname] for vname in self._datalist[0] if vname not in self._property_names\n")],
  needs='a series whose first file has fewer fields than a later one', breaks='fields of the later file are not in the XMF file', demo=COMMON + '''
g = cube()
for k in range(3):
    g.cell_data['Q'] = np.array([1.0 + k])
    if k:
        g.cell_data['A'] = np.array([5.0])
    g.save(f'f{k}.vtu')
l = vtk.vtkList([f'f{k}.vtu' for k in range(3)])
l.read()
l.dumphdf('d.h5', xdmf=True)
grids = [x for x in ET.parse('d.xmf').getroot().iter('Grid') if x.find('Attribute') is not None]
assert [sorted(y.get('Name') for y in x.iter('Attribute')) for x in grids] == [['Q'], ['A', 'Q'], ['A', 'Q']]
'''),
 dict(id='c14-stale-volumes', property='C14',
  edits=[(V, "        self.set_pvmesh(pv.UnstructuredGrid(celldict, points))\n", "        self._grid = pv.UnstructuredGrid(celldict, points)\n")],
  needs='volumes asked for before another mesh is imported in the same object', breaks='volumes of the former mesh are given', demo=COMMON + '''
name = vtk.vtkMesh(pvmesh=cube(2.0)).dumphdf('c.h5')
v = vtk.vtkMesh(pvmesh=cube())
assert abs(v.volumes()[0] - 1) < 1e-9
h = h5File(name)
h.open()
v.importhdfgroup(h['mesh'])
h.close()
assert abs(v.volumes()[0] - 8) < 1e-9
'''),
 dict(id='c14-stale-cells', property='C14',
  edits=[(V, "        celldict = {ele_vtktype[itype]: cellco for itype, cellco in self._grid.cells_dict.items()}\n",
          "        celldict = {ele_vtktype[itype]: cellco for itype, cellco in getattr(self, '_celldict', self._grid.cells_dict).items()}\n")],
  needs='an object made from a mesh, then given another grid, and dumped', breaks='the dump has the nodes of one and the cells of the other', demo=COMMON + '''
v = vtk.vtkMesh(Cube(1, 1, 1).export_mesh())
v.set_pvmesh(tetra())
with h5py.File(v.dumphdf('c.h5'), 'r') as f:
    assert list(f['mesh/cells']) == ['tetra4'] and f['mesh/cells/tetra4'][()].tolist() == [[0, 1, 3, 4]]
'''),
 dict(id='c14-lossy', property='C14',
  edits=[('cfdtools/hdf5/_hdf5.py', '        hgroup.create_dataset("nodes", data=nodes, **options)\n',
          '        if options.get("compression"):\n            nodes = np.asarray(nodes, dtype=np.float32)\n        hgroup.create_dataset("nodes", data=nodes, **options)\n')],
  needs='a dump with a compression option and coordinates which single precision does not represent', breaks='coordinates are rounded', demo=COMMON + '''
g = cube(0.1)
for opt in ({}, {'compression': 'gzip'}):
    assert np.array_equal(content(vtk.vtkMesh(pvmesh=g).dumphdf('c.h5', **opt), 'mesh/nodes'), CUBE * 0.1)
'''),
 dict(id='c14-tetra-name', property='C14',
  edits=[(V, '        CellType.TETRA: "Tetrahedron",\n', '        CellType.TETRA: "Tetra",\n')],
  needs='an XMF file of a mesh made only of tetrahedra', breaks='the name is not one of XDMF: a reader refuses the topology', demo=COMMON + '''
g = tetra()
g.cell_data['Q'] = np.ones(1)
g.save('f.vtu')
l = vtk.vtkList(['f.vtu'])
l.read()
l.dumphdf('d.h5', xdmf=True)
t = ET.parse('d.xmf').getroot().find('.//Topology')
assert t.attrib['TopologyType'] in ('Tetrahedron', 'Mixed')
'''),
 dict(id='c14-pack-order', property='C14',
  edits=[('cfdtools/_cli.py', "    vtklist = vtk.vtkList(parser.args().filelist, verbose=True)\n    if vtklist.allexist():\n        log.info(\"  all files exist\")\n    else:\n        api.error_stop(\"some files are missing\")\n    vtklist.read()\n",
          "    vtklist = vtk.vtkList(sorted(set(parser.args().filelist)), verbose=True)\n    if vtklist.allexist():\n        log.info(\"  all files exist\")\n    else:\n        api.error_stop(\"some files are missing\")\n    vtklist.read()\n")],
  needs='the command given files whose names are not sorted, or one of them twice', breaks='the steps of the dump are not those of the files given', demo=COMMON + '''
import cfdtools._cli as cli
for n, t in (('a10', 0.5), ('a9', 0.25)):
    g = cube()
    g.cell_data['Q'] = np.array([t])
    g.field_data['TimeValue'] = np.array([t])
    g.save(n + '.vtu')
for files in (['a9', 'a10'], ['a10', 'a9'], ['a9', 'a10', 'a9']):
    want = [{'a9': 0.25, 'a10': 0.5}[f] for f in files]
    with h5py.File(cli.vtkpack([f + '.vtu' for f in files]), 'r') as f:
        steps = [f['datalist'][k] for k in sorted(f['datalist'])]
        assert [float(s['Q'][0]) for s in steps] == want, files
        assert [float(np.ravel(s.attrs['time'])[0]) for s in steps] == want, files
'''),
]
