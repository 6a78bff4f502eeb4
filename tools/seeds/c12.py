COMMON = '''
import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import pyvista as pv
import cfdtools.vtk as vtk
import cfdtools.meshbase.simple as simple
os.chdir(os.environ['SCRATCH'])
def file(name, perm, n=(1, 1, 3), time=None, move=0., **fields):
    """a row of cells in the order perm; value of a field of the cell number i: fields[name](i)"""
    g = vtk.vtkMesh(simple.Cube(*n).export_mesh()).pyvista_grid
    cells = g.cells.reshape(-1, 9)[list(perm)]
    p = np.array(g.points)
    p[:, 0] += move
    r = pv.UnstructuredGrid(cells.ravel(), np.full(len(perm), 12, dtype=np.uint8), p)
    for k, f in fields.items():
        r.cell_data[k] = np.array([f(i) for i in perm])
    if time is not None:
        r.field_data['TimeValue'] = np.array([time])
    r.save(name)
    return name
def read(names, **kw):
    v = vtk.vtkList(names)
    v.read(**kw)
    return v._data._datalist
'''
F = 'cfdtools/vtk/_vtkList.py'
SEEDS = [
 dict(id='c12-not-inverse', property='C12',
  edits=[(F, "                rindex[index] = np.arange(index.size)\n", "                rindex[np.arange(index.size)] = index\n")],
  needs='a file whose cells are a permutation, other than its own inverse, of those of the first file', breaks='values are placed by the index instead of its inverse', demo=COMMON + '''
d = read([file('a.vtu', [0, 1, 2], P=float), file('b.vtu', [1, 2, 0], P=float)])
assert list(d[1]['P']) == [0., 1., 2.]
'''),
 dict(id='c12-scalars-only', property='C12',
  edits=[(F, "                datalist = {name: vtk.cell_data[name][rindex] for name in namelist}", "                datalist = {name: vtk.cell_data[name][rindex[: len(vtk.cell_data[name])]] if vtk.cell_data[name].dtype.kind == 'f' else vtk.cell_data[name] for name in namelist}")],
  needs='a field of integers in a file whose cells are permuted', breaks='fields of integers are not reordered', demo=COMMON + '''
d = read([file('a.vtu', [0, 1, 2], rank=int), file('b.vtu', [2, 1, 0], rank=int)])
assert list(d[1]['rank']) == [0, 1, 2]
'''),
 dict(id='c12-time-kept', property='C12',
  edits=[(F, "            time = vtk.field_data.get(\"TimeValue\", None)\n", "            time = vtk.field_data.get(\"TimeValue\", self._data._datalist[-1].get('time') if self._data._datalist else None)\n")],
  needs='a file without time after a file with one', breaks='the file gets the time of the previous one', demo=COMMON + '''
d = read([file('a.vtu', [0, 1, 2], time=3., P=float), file('b.vtu', [0, 1, 2], P=float)])
assert 'time' not in d[1]
'''),
 dict(id='c12-filter-first', property='C12',
  edits=[(F, "            namelist = filterdata if filterdata else vtk.cell_data.keys()\n", "            namelist = filterdata = filterdata if filterdata else list(vtk.cell_data.keys())\n")],
  needs='files that do not have the same fields, read without a filter', breaks='only the fields of the first file are kept', demo=COMMON + '''
d = read([file('a.vtu', [0, 1, 2], P=float), file('b.vtu', [0, 1, 2], P=float, T=float)])
assert sorted(d[1]) == ['P', 'T']
'''),
 dict(id='c12-drift', property='C12',
  edits=[(F, "            else:\n                datalist = {name: vtk.cell_data[name] for name in namelist}\n", "            else:\n                ctrRef = ctr\n                datalist = {name: vtk.cell_data[name] for name in namelist}\n")],
  needs='a series moving by less than the tolerance from one file to the next, and more than it in total', breaks='each file is compared with the previous one: the drift is accepted', demo=COMMON + '''
names = [file(f'{k}.vtu', [0, 1, 2], move=k * 0.7e-3, P=float) for k in range(4)]
try:
    read(names, tol=1e-3)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
'''),
 dict(id='c12-check-quiet', property='C12',
  edits=[(F, "                count += 1\n                if self._verbose:\n                    log.info(f\"  . {name}: {d}\")\n", "                if self._verbose:\n                    count += 1\n                    log.info(f\"  . {name}: {d}\")\n")],
  needs='the order check of a list that is not verbose', breaks='files in another order are said to be coincident', demo=COMMON + '''
assert not vtk.vtkList([file('a.vtu', [0, 1, 2]), file('b.vtu', [2, 1, 0])]).check_order()
'''),
]
