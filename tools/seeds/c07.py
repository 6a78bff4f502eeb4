COMMON = '''
import os, shutil, numpy as np
import cfdtools.api as api
import cfdtools._cli as cli
from cfdtools.meshbase.simple import Cube
import cfdtools.ic3.writerV3 as w3
import cfdtools.vtk as vtk
os.chdir(os.environ['SCRATCH'])
def put(p, t='old'):
    open(p, 'w').write(t)
def old(p):
    return open(p).read() == 'old'
def source(p):
    w3.writer(Cube(1,1,1).export_mesh()).write_data(p)
def grid():
    import pyvista as pv
    pts = np.array([(0,0,0),(1,0,0),(1,1,0),(0,1,0),(0,0,1),(1,0,1),(1,1,1),(0,1,1)], dtype=float)
    return pv.UnstructuredGrid({pv.CellType.HEXAHEDRON: np.arange(8).reshape(1,8)}, pts)
'''
SEEDS = [
 dict(id='c07-ten-names', property='C07',
  edits=[('cfdtools/api.py', 'while safepath.exists():', 'while safepath.exists() and i < 10:')],
  needs='eleven names already taken',
  breaks='after ten numbered names the last one is overwritten',
  demo=COMMON + '''
source('in.ic3'); os.mkdir('out')
put('out/in.ic3')
for i in range(1, 12): put(f'out/in({i}).ic3')
r = cli.cfdwrite_ic3v3(['in.ic3', '--outpath', 'out'])
assert all(old(f'out/in({i}).ic3') for i in range(1, 12)) and old('out/in.ic3')
assert r == 'out/in(12).ic3' and os.path.exists(r)
'''),
 dict(id='c07-gap', property='C07',
  edits=[('cfdtools/api.py', '''        while safepath.exists():
            i += 1
            # safepath = safepath.with_stem(stem+f'({i})') # only python >= 3.9
            # print(folder, stem, f"({i})", suff)
            safepath''', '''        if safepath.exists():
            i = 1 + len([p for p in folder.iterdir() if p.name.startswith(stem + '(') and p.suffix == suff])
            safepath''')],
  needs='names taken with a gap in their numbers: mesh.h5 and mesh(2).h5',
  breaks='the number is the count of numbered files: with a gap an existing file is overwritten',
  demo=COMMON + '''
put('d.h5'); put('d(2).h5')
g = vtk.vtkMesh(pvmesh=grid())
a = g.dumphdf('d.h5'); b = g.dumphdf('d.h5')
assert old('d.h5') and old('d(2).h5'), (a, b)
assert a == 'd(1).h5' and b == 'd(3).h5'
'''),
 dict(id='c07-is-file', property='C07',
  edits=[('cfdtools/api.py', 'while safepath.exists():', 'while safepath.is_file() and not safepath.is_symlink():')],
  needs='the name is taken by a symbolic link to a file (or a folder)',
  breaks='the file behind a link is overwritten by a conversion',
  demo=COMMON + '''
source('in.ic3'); os.mkdir('out'); put('out/precious'); os.symlink('precious', 'out/in.ic3')
r = cli.cfdwrite_ic3v2(['in.ic3', '--outpath', 'out'])
assert old('out/precious') and r == 'out/in(1).ic3'
'''),
 dict(id='c07-stem-dot', property='C07',
  edits=[('cfdtools/api.py', "        stem = safepath.stem\n        suff = safepath.suffix\n", "        stem, *suff = safepath.name.split('.')\n        suff = '.' + suff[-1] if suff else ''\n")],
  needs='a name with several dots that is already taken',
  breaks='the middle part of the base name is lost in the numbered name',
  demo=COMMON + '''
source('in.v1.2.ic3')
r = cli.cfdwrite_ic3v3(['in.v1.2.ic3'])
assert r == 'in.v1.2(1).ic3', r
'''),
 dict(id='c07-dump-name', property='C07',
  edits=[('cfdtools/data.py', "        hdata = file._h5file.create_group(\"datalist\")\n        self._dumphdfgroup(hdata, order, **options)\n        file.close()\n        return file.filename", "        hdata = file._h5file.create_group(\"datalist\")\n        self._dumphdfgroup(hdata, order, **options)\n        file.close()\n        return str(filename)")],
  needs='a series dumped where the name is taken, and use of the returned name',
  breaks='the returned name is the requested one, not the one written',
  demo=COMMON + '''
grid().save('a.vtu'); put('s.h5')
l = vtk.vtkList(['a.vtu']); l.read()
r = l.dumphdf('s.h5')
assert old('s.h5') and r == 's(1).h5', r
'''),
]
