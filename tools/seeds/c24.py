COMMON = '''
import os, sys, re, io, logging, contextlib
sys.path.insert(0, os.getcwd())
os.environ['MPLBACKEND'] = 'Agg'
import numpy as np
import cfdtools._cli as cli
import cfdtools.data as data
import cfdtools.meshbase.simple as simple
import cfdtools.meshbase._mesh as _mesh
import cfdtools.meshbase._connectivity as conn
os.chdir(os.environ['SCRATCH'])
lines = []
class H(logging.Handler):
    def emit(self, r):
        lines.extend(r.getMessage().split('\\n'))
logging.getLogger('cfdtools').addHandler(H())

def cube(**fields):
    m = simple.Cube(2, 2, 2).export_mesh()
    ds = data.DataSet('cellaverage')
    for k, v in fields.items():
        ds.add_data(k, v)
    if fields:
        m.set_celldata(ds)
    return m

def find(pattern):
    return [m for m in (re.search(pattern, x) for x in lines) if m]
'''
C, CONN, IC3, V4, VTK = 'cfdtools/_cli.py', 'cfdtools/meshbase/_connectivity.py', 'cfdtools/ic3/_ic3.py', 'cfdtools/ic3/readerV4.py', 'cfdtools/vtk/_vtk.py'
SEEDS = [
 dict(id='c24-list-extent', property='C24',
  edits=[(CONN, '            return "list min:max:size = {}:{}:{}".format(n.min(), n.max(), n.size)', '            return "list min:max:size = {}:{}:{}".format(n.min(), n.max(), n.max() - n.min() + 1)')],
  needs='a mark whose numbers have holes', breaks='the size told of a list is its extent', demo=COMMON + '''
m = cube()
b = _mesh.submeshmark('some')
b.geodim = 'node'
b.index = conn.indexlist(ilist=[7, 1, 4])
m.add_boco(b)
m.printinfo()
assert find(r'BC some .*1:7:3$')
'''),
 dict(id='c24-info-before-scale', property='C24',
  edits=[(C, "    if parser.args().scale:\n        cfdmesh.scale(parser.args().scale)\n    if parser.args().info:\n        cfdmesh.printinfo()\n", "    if parser.args().info:\n        cfdmesh.printinfo()\n    if parser.args().scale:\n        cfdmesh.scale(parser.args().scale)\n")],
  needs='a conversion that scales, with --info', breaks='the extent told is not that of the file made', demo=COMMON + '''
import cfdtools.ic3.writerV3 as w3
w3.writer(cube()).write_data('cube.ic3')
os.mkdir('out')
cli.cfdwrite_ic3v3(['cube.ic3', '--outpath', 'out', '--info', '--scale', '3', '1', '1'])
assert find(r'x min:avg:max =\\s*0.000:1.500:3.000')
'''),
 dict(id='c24-short-reals', property='C24',
  edits=[(IC3, 'mystring += "rdata: (" + ", ".join(str(r) for r in self.rdata) + ")"', 'mystring += "rdata: (" + ", ".join(f"{r:g}" for r in self.rdata) + ")"')],
  needs='a value of a header with more than six digits', breaks='the values told are rounded', demo=COMMON + '''
import cfdtools.ic3.writerV3 as w3
m = cube()
m.set_params({'step': 3, 'dt': 0.1234567891, 'time': 2.5})
w3.writer(m).write_data('cube.ic3')
out = io.StringIO()
with contextlib.redirect_stdout(out):
    cli.ic3brief(['cube.ic3'])
t = [re.sub(r'np.float64|[()]', '', x) for x in (out.getvalue() + chr(10).join(lines)).split(chr(10)) if x.startswith('rdata')]
assert any(x.startswith('rdata: 0.1234567891') for x in t), t
'''),
 dict(id='c24-tensor-order', property='C24',
  edits=[(V4, '                        print_stats_scalar(var_up + "-%d" % component, field[:, component])', '                        column = 3 * (component % 3) + component // 3 if nb_fields == 9 else component\n                        print_stats_scalar(var_up + "-%d" % component, field[:, column])')],
  needs='a tensor that is not symmetric, in a file of version 4', breaks='the statistics of a component are those of the transposed one', demo=COMMON + '''
import h5py
import cfdtools.ic3.writerV4 as w4
import cfdtools.ic3.readerV4 as r4
w4.writer(cube(rho=np.ones(8))).write_data('cube.h5', 'sol.h5')
with h5py.File('sol.h5', 'a') as h:
    g = h.require_group('VolumeStats')
    g.create_dataset('u_rey', data=np.tile(np.arange(9.), 8))
r4.reader('cube.h5', 'sol.h5').read_data()
assert find(r'U_REY-1 *: *\\+1.00000e\\+00 /')
'''),
 dict(id='c24-popped-twice', property='C24',
  edits=[(C, "            if cfdmesh.pop_celldata(var) is None:", "            if cfdmesh.pop_celldata(var) is None and var not in (parser.args().remove_node_data or []):")],
  needs='one name asked of the cells and of the nodes, that only the nodes have', breaks='data that are not there are said to be removed', demo=COMMON + '''
import cfdtools.ic3.writerV3 as w3
m = cube(rho=np.ones(8))
m._nodedata['psi'] = np.ones(m.nnode)
w3.writer(m).write_data('cube.ic3')
os.mkdir('out')
cli.cfdwrite_ic3v3(['--remove-cell-data', 'psi', '--remove-node-data', 'psi', '--outpath', 'out', 'cube.ic3'])
assert find('cannot find cell data psi') and not find('pop cell data psi')
'''),
 dict(id='c24-names-once', property='C24',
  edits=[(VTK, '            log.info(f"  point data names: {m.point_data.keys()}")', '            log.info(f"  point data names: {[n for n in m.point_data.keys() if n not in m.cell_data.keys()]}")')],
  needs='data of one name on the cells and on the points', breaks='such data are not told among those of the points', demo=COMMON + '''
import pyvista as pv
g = pv.ImageData(dimensions=(3, 3, 3)).cast_to_unstructured_grid()
g.cell_data['p'] = np.zeros(g.n_cells)
g.point_data['p'] = np.zeros(g.n_points)
g.save('g.vtu')
cli.vtkbrief(['g.vtu'])
assert find(r"point data names:.*'p'")
'''),
 dict(id='c24-faces-told', property='C24',
  edits=[('cfdtools/meshbase/_mesh.py', """                facedict['face2node'].print(prefix='  . ', detailed=detailed)""", """                self._faces.get('mixed', facedict)['face2node'].print(prefix='  . ', detailed=detailed)""")],
  needs='a mesh that holds a mixed set of faces beside another', breaks='the faces told of each set are those of the mixed one', demo=COMMON + '''
m = cube()
m.make_face_connectivity()
f = m._faces['boundary']
c = conn.elem_connectivity()
c.add_elems('quad4', np.array([[0, 1, 2, 3]]))
m.add_faces('mixed', c, conn.indexindirection(np.array([[0, -1]])))
m.printinfo()
assert find(r'quad4: .24, 4. with index')
'''),
]
