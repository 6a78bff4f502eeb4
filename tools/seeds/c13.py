COMMON = '''
import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import pyvista as pv
import cfdtools.vtk as vtk
os.chdir(os.environ['SCRATCH'])
def grid(cells):
    """unit cubes (i, j, k) in this order, each with its points; U(cell), V(cell) by functions"""
    off = np.array([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)], dtype=float)
    pts = np.vstack([off + np.array(c) for c in cells])
    n = len(cells)
    g = pv.UnstructuredGrid(np.hstack([np.full((n, 1), 8), np.arange(8 * n).reshape(n, 8)]).ravel(), np.full(n, 12, dtype=np.uint8), pts)
    return g
def average(g, **kw):
    r = vtk.vtkMesh(pvmesh=g).vtk_zconvolution(**kw).pyvista_grid
    return r, [int(round(x - 0.5)) for x in r.cell_centers().points[:, 0]]
def refused(g, **kw):
    try:
        average(g, **kw)
    except ValueError:
        return True
    return False
'''
F = 'cfdtools/vtk/_vtk.py'
SEEDS = [
 dict(id='c13-far-cell', property='C13',
  edits=[(F, "                    if dmax > tol:\n", "                    if davg > tol:\n")],
  needs='one cell of one plane, among many, aligned within a few times the tolerance only', breaks='the cell is accepted, the mean distance being small', demo=COMMON + '''
cells = [(i, 0, k) for k in range(8) for i in range(4)]
cells[21] = (cells[21][0] + 2e-6, 0, cells[21][2])
g = grid(cells)
g.cell_data['U'] = np.arange(32.)
assert refused(g)
'''),
 dict(id='c13-snapshot', property='C13',
  edits=[(F, "                new_mesh._grid.cell_data[name] = data[0,...]\n", "                new_mesh._grid.cell_data[name] = self._grid.cell_data[name][np.sort(chunks[0])]\n")],
  needs='cells of the first plane not in increasing order once sorted by position (jitter of the transverse coordinate)', breaks='the snapshot is in another order than the cells', demo=COMMON + '''
cells = [(0, 0, 1e-9), (1, 0, 0), (0, 0, 1), (1, 0, 1)]
g = grid(cells)
g.cell_data['U'] = np.array([1., 2., 3., 4.])
r, x = average(g, snapshot=True)
assert [r.cell_data['U'][x.index(i)] for i in range(2)] == [1., 2.]
'''),
 dict(id='c13-phase', property='C13',
  edits=[(F, "np.angle(datafft[i,...])", "np.arcsin(datafft[i,...].imag / np.maximum(np.abs(datafft[i,...]), 1e-300))")],
  needs='a mode whose real part is negative', breaks='the phase is given in the wrong quadrant', demo=COMMON + '''
g = grid([(0, 0, k) for k in range(4)])
g.cell_data['U'] = np.array([-1., 0., 1., 0.])
r, _ = average(g, nmode=1, phase=True)
assert abs(abs(r.cell_data['U_k1_phase'][0]) - np.pi) < 1e-6
'''),
 dict(id='c13-options-leak', property='C13',
  edits=[(F, "                            directives[key].update(v)\n", "                            current_options.update(v)\n                            directives[key].update(v)\n")],
  needs='a selection of two fields, of which the first has options given by a dict', breaks='options of one field are applied to the next ones', demo=COMMON + '''
g = grid([(0, 0, k) for k in range(4)])
g.cell_data['U'] = g.cell_data['V'] = np.arange(4.)
r, _ = average(g, select={'U': [{'nmode': 1}], 'V': 'rms'})
assert sorted(r.cell_data.keys()) == ['U_avg', 'U_k1', 'V_avg', 'V_rms']
'''),
 dict(id='c13-last-gap', property='C13',
  edits=[(F, "            zdiff = np.diff(zavg)\n", "            zdiff = np.diff(zavg[:-1]) if nchunk > 2 else np.diff(zavg)\n")],
  needs='planes evenly spaced except the last one', breaks='the spacing of the last plane is not verified', demo=COMMON + '''
g = grid([(0, 0, 0), (0, 0, 1), (0, 0, 2), (0, 0, 4)])
g.cell_data['U'] = np.arange(4.)
assert refused(g)
'''),
 dict(id='c13-extract-order', property='C13',
  edits=[(F, "            used_point_ids = list(set(extract_vtex))\n", "            used_point_ids = list(dict.fromkeys(extract_vtex))\n"), (F, "            new_points = points[used_point_ids, :]\n", "            new_points = points[np.isin(np.arange(len(points)), used_point_ids), :]\n")],
  needs='cells taken in an order in which their points are not in increasing order', breaks='points and cells of the result do not agree', demo=COMMON + '''
g = grid([(0, 0, 1), (1, 0, 1), (1, 0, 0), (0, 0, 0)])
g.cell_data['U'] = np.array([1., 2., 3., 4.])
r = vtk.vtkMesh(pvmesh=g).vtk_extract_cells([3, 0]).pyvista_grid
assert np.allclose(r.cell_centers().points[0], [.5, .5, .5])
'''),
]
