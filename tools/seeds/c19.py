COMMON = '''
import os, sys
sys.path.insert(0, os.getcwd())
D = os.environ['SCRATCH']
import cfdtools.api as api
import cfdtools._cli as cli
import cfdtools.meshbase.simple as simple
os.chdir(D)
def fails(f, *a):
    try:
        f(*a)
    except (Exception, SystemExit):
        return True
    return False
class R:
    used = 0
    def __init__(self, filename, cIntegrity=False):
        self.ncell = 1
    def read_data(self):
        R.used += 1
    def export_mesh(self):
        return simple.Cube(1, 1, 1).export_mesh()
class W:
    def __init__(self, mesh): pass
    def write_data(self, f): open(f, 'w').write('W')
'''
A, C, G = 'cfdtools/api.py', 'cfdtools/_cli.py', 'cfdtools/gmsh/reader.py'
SEEDS = [
 dict(id='c19-reader-last', property='C19',
  edits=[(A, "        properties = {'reader': thisclass, 'ext': extension}\n        if name in _fileformat_map:\n            _fileformat_map[name].update(properties)\n        else:\n            _fileformat_map[name] = properties",
             "        _fileformat_map[name] = {'reader': thisclass, 'ext': extension}")],
  needs='a reader registered after the writer of the same format', breaks='the writer is forgotten', demo=COMMON + '''
api.fileformat_writer('ZZ', '.zz')(W); api.fileformat_reader('ZZ', '.zz')(R)
cli.cfdwritecube(['f.zz', '--nx', '1', '--ny', '1', '--nz', '1'])
assert open('f.zz').read() == 'W'
'''),
 dict(id='c19-first-match', property='C19',
  edits=[(C, "        elif len(thisfmt) > 1:", "        elif len(set(api._fileformat_map[n].get('reader') for n in thisfmt)) > 2:")],
  needs='two formats with the same extension', breaks='an ambiguous extension is not refused', demo=COMMON + '''
api.fileformat_reader('Z1', '.zz')(R); api.fileformat_reader('Z2', '.zz')(type('R2', (R,), {}))
open('f.zz', 'w').write('x')
assert fails(cli.cfdwrite_ic3v3, ['f.zz']) and 'f.ic3' not in os.listdir('.') and R.used == 0
'''),
 dict(id='c19-prefix-extension', property='C19',
  edits=[(C, "api._fileformat_map[n]['ext'] == ext", "ext.startswith(api._fileformat_map[n]['ext'])")],
  needs='a file with an extension that continues a registered one', breaks='a file of unknown extension is read as another format', demo=COMMON + '''
api.fileformat_reader('ZZ', '.zz')(R)
open('f.zzt', 'w').write('x')
assert fails(cli.cfdinfo, ['f.zzt']) and R.used == 0
'''),
 dict(id='c19-first-dot', property='C19',
  edits=[(C, "            ext = Path(self._args.filename).suffix\n", "            ext = ''.join(Path(self._args.filename).suffixes[-2:])\n")],
  needs='a file name with dots before the extension', breaks='the extension of the file is not recognised', demo=COMMON + '''
api.fileformat_reader('ZZ', '.zz')(R)
open('my.f.zz', 'w').write('x')
cli.cfdinfo(['my.f.zz']); assert R.used == 1
'''),
 dict(id='c19-v4-entities', property='C19',
  edits=[(G, "        if self.version <= 2:\n            return self.__read_sections_V2(msh)\n        elif self.version >= 4:", "        if [\"$Entities\"] not in msh:\n            return self.__read_sections_V2(msh)\n        elif self.version >= 4:")],
  needs='a version 4.1 file without a table of entities', breaks='the version of the file is not recognised', demo=COMMON + '''
open('f.msh', 'w').write("""$MeshFormat
4.1 0 8
$EndMeshFormat
$Nodes
1 3 1 3
2 1 0 3
1
2
3
0 0 0
1 0 0
0 1 0
$EndNodes
$Elements
1 1 1 1
2 1 2 1
1 1 2 3
$EndElements
""")
cli.cfdinfo(['f.msh'])
'''),
]
