"""C07: conversions and dumps never overwrite an existing file."""
import hashlib
import os
import random
import shutil

import gen
import ic3fmt
import life
import mshfmt
import proj
from common import errtxt, outcome

import contextlib
import io

ASSUMPTIONS = ['no other program creates the file between the search of a free name and its creation (the interface offers no atomic creation)']
SUF = {'ic3v2': '.ic3', 'ic3v3': '.ic3', 'vtk': '.vtu', 'vtkpack': '.h5', 'meshdump': '.h5', 'listdump': '.h5', 'vtklist': '.h5', 'vtkxmf': '.h5'}
FMT = {'.ic3': 'ic3', '.vtu': 'vtu', '.h5': 'h5'}
STEMS = {'plain': 'mesh', 'dots': 'mesh.v1.0', 'space': 'my mesh', 'number': 'mesh(1)', 'nosuffix': 'mesh', 'hidden': '.mesh', 'many': 'mesh',
         'upper': 'MESH'}


def snap(root):
    res = []
    for d, ds, fs in os.walk(root):
        for n in sorted(ds) + sorted(fs):
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                res.append([rel, 'link', os.readlink(p)])
            elif os.path.isdir(p):
                res.append([rel, 'dir', ''])
            else:
                with open(p, 'rb') as f:
                    res.append([rel, 'file', hashlib.sha1(f.read()).hexdigest()[:16]])
    return sorted(res)


def stamp(p):
    st = os.stat(p)
    return st.st_mtime_ns, st.st_ino, st.st_size


def content(p):
    with open(p, 'rb') as f:
        b = f.read(4000)
    if b[:8] == b'\x89HDF\r\n\x1a\n':
        return 'h5'
    if b'<VTKFile' in b:
        return 'vtu'
    if b'<Xdmf' in b:
        return 'xmf'
    with open(p, 'rb') as f:
        r = ic3fmt.raw_sections(f.read())
    return 'ic3' if r[3] and not r[5] else 'other'


def occupy(path, kind, rng):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.lexists(path):
        return
    if kind == 'file':
        with open(path, 'wb') as f:
            f.write(bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 300]))))
    elif kind == 'dir':
        os.mkdir(path)
    elif kind == 'link':
        tgt = path + '.target'
        with open(tgt, 'wb') as f:
            f.write(b'target of a link')
        os.symlink(os.path.basename(tgt), path)


class World:
    def __init__(self, root, cid, scen, rng):
        self.root, self.rng, self.scen = os.path.join(root, cid), rng, scen
        self.cwd = os.path.join(self.root, 'work')
        for d in ('work', 'work/sub', 'other', 'abs'):
            os.makedirs(os.path.join(self.root, d))
        self.stem = STEMS[scen['style']]
        self.ev = []
        pre = list(scen['pre'])
        if scen['style'] == 'many':
            pre = ['file'] * rng.choice([9, 10, 12]) + pre
        for d in ('work', 'work/sub', 'other', 'abs'):
            for stem in (self.stem, 'dumped'):
                for suf in ('.ic3', '.vtu', '.h5', '.xmf', ''):
                    if suf in ('.xmf', '') and rng.random() < 0.5:
                        continue
                    for i, k in enumerate(pre):
                        if k != 'none':
                            if k == 'dir' and suf == '.xmf':
                                k = 'file'
                            occupy(os.path.join(self.root, d, stem + (f'({i})' if i else '') + suf), k, rng)
        gm = life.make_gm(rng.choice(['hexa', 'small']), rng)
        self.gm = gm
        text = mshfmt.simple(gm, [('side', gm.boundary())])
        self.inputs = {}
        for d in ('work', 'work/sub', 'other'):
            p = os.path.join(self.root, d, self.stem + '.msh')
            with open(p, 'w') as f:
                f.write(text)
            if scen['style'] == 'nosuffix':
                p = os.path.join(self.root, d, self.stem)
                if os.path.isdir(p):
                    continue
                if os.path.islink(p):
                    os.remove(p)
                with open(p, 'w') as f:
                    f.write(text)
        b = ic3fmt.fabricate(rng.choice([2, 3]), '<', self.ic3_content(gm))
        for d in ('work', 'work/sub', 'other'):
            p = os.path.join(self.root, d, self.stem + '.ic3')
            if not os.path.lexists(p) or os.path.isfile(p) and not os.path.islink(p):
                with open(p, 'wb') as f:
                    f.write(b)

    def ic3_content(self, gm):
        sc = {'no': 6, 'fa': 5, 'cv': 2, 'kinds': ['CV_D1'], 'ndof': 1}
        return life.fabricated(sc, self.rng)

    def snap(self):
        """the tree before a command"""
        res = snap(self.root)
        self.stamps = {x[0]: stamp(os.path.join(self.root, x[0])) for x in res if x[1] == 'file'}
        return res

    def rel(self, p):
        return os.path.relpath(os.path.join(self.cwd, p), self.root)

    def record(self, before, op, dest, stem, suf, xmf, missing, ok, ret):
        after = snap(self.root)
        what = []
        for x in after:
            if x[1] == 'file' and self.stamps.get(x[0]) != stamp(os.path.join(self.root, x[0])):
                what.append([x[0], content(os.path.join(self.root, x[0]))])
        e = {'op': 'conv', 'cmd': op['cmd'], 'dest': dest, 'stem': stem, 'suf': suf, 'fmt': FMT[SUF[op['cmd']]], 'ovw': op['ovw'], 'xmf': xmf,
             'missing': missing, 'exc': '' if ok else errtxt(ret), 'ret': '', 'before': before, 'after': after, 'what': what}
        if ok:
            if isinstance(ret, (str, os.PathLike)):
                e['ret'] = self.rel(str(ret))
            else:
                e['exc'] = f'returned {type(ret).__name__}'
        self.ev.append(e)

    def run(self, op):
        import cfdtools._cli as cli
        import cfdtools.data as data
        import cfdtools.vtk as vtk

        rng, cmd = self.rng, op['cmd']
        dirs = {'cwd': 'work', 'sub': 'work/sub', 'up': 'other', 'abs': 'abs', 'missing': 'nowhere'}
        dest = dirs[op['dest']]
        arg = {'cwd': '.', 'sub': 'sub', 'up': '../other', 'abs': os.path.join(self.root, 'abs'), 'missing': '../nowhere'}[op['dest']]
        missing = op['dest'] == 'missing'
        xmf = cmd == 'vtkxmf'
        stem, suf = self.stem, SUF[cmd]
        if cmd in ('ic3v2', 'ic3v3', 'vtk'):
            where = {'cwd': 'work', 'other': 'other', 'dest': dest if dest in ('work', 'work/sub', 'other') else 'work/sub'}[op['inp']]
            ext = '.msh'
            if self.scen['style'] == 'nosuffix' and is_msh(os.path.join(self.root, where, self.stem)):
                ext = ''
            elif cmd != 'vtk' and rng.random() < 0.5 and content_ok(os.path.join(self.root, where, self.stem + '.ic3')):
                ext = '.ic3'
            inp = os.path.join(self.root, where, self.stem + ext)
            if rng.random() < 0.6:
                inp = os.path.relpath(inp, self.cwd)
            argv = [inp]
            if op['dest'] != 'cwd' or rng.random() < 0.3:
                argv += ['--outpath', arg]
            if ext == '':
                argv += ['--fmt', 'GMSH']
            f = getattr(cli, {'ic3v2': 'cfdwrite_ic3v2', 'ic3v3': 'cfdwrite_ic3v3', 'vtk': 'cfdwrite_vtk'}[cmd])
            before = self.snap()
            ok, ret = outcome(f, argv)
            return self.record(before, op, dest, stem, suf, xmf, missing, ok, ret)
        if cmd == 'vtkpack':
            before = self.snap()
            ok, ret = outcome(cli.vtkpack, list(self.scen['vtu']))
            return self.record(before, op, 'work', 'dumped', '.h5', xmf, False, ok, ret)
        if self.scen['style'] == 'nosuffix' and not xmf:
            suf = ''
        name = os.path.join(arg, stem + suf) if op['dest'] != 'cwd' or rng.random() < 0.3 else stem + suf
        if op['ovw']:
            for p in (name, os.path.join(arg, stem + '.xmf')):
                if os.path.islink(os.path.join(self.cwd, p)):
                    os.remove(os.path.join(self.cwd, p))
        if self.ev:  # (links taken away, as somebody else)
            self.ev.append({'op': 'env', 'before': self.ev[-1]['after'], 'after': snap(self.root)})
        before = self.snap()
        kw = {'overwrite': True} if op['ovw'] else {} if rng.random() < 0.5 else {'overwrite': False}
        if rng.random() < 0.3:
            kw['compression'] = 'gzip'
        mesh, _ = proj.build_mesh(self.gm, rng)

        def go():
            if cmd == 'meshdump':
                return vtk.vtkMesh(mesh=mesh).dumphdf(name, **kw)
            if cmd == 'listdump':
                ds = data.DataSetList(1)
                ds.add_datalist({'q': life.values((self.gm.ncell,), rng)})
                ds.set_mesh(mesh)
                return ds.dumphdf(name, **kw)
            vl = vtk.vtkList(list(self.scen['vtu']))
            vl.read()
            return vl.dumphdf(name, xdmf=xmf, **kw)

        ok, ret = outcome(go)
        self.record(before, op, dest, stem, suf, xmf, missing, ok, ret)


def is_msh(p):
    if os.path.isdir(p):
        return False
    with open(p, 'rb') as f:
        return f.read(5) == b'$Mesh'


def content_ok(p):
    return os.path.isfile(p) and not os.path.islink(p) and content(p) == 'ic3'


def store_case(job):
    cid, scen, seed, wd = job
    w = World(wd, cid, scen, random.Random(seed))
    old = os.getcwd()
    os.chdir(w.cwd)
    try:
        for op in scen['ops']:
            with contextlib.redirect_stdout(io.StringIO()):
                w.run(op)
    finally:
        os.chdir(old)
        shutil.rmtree(w.root)
    return {'id': cid, 'ev': w.ev}


def run(ctx):
    import numpy as np
    import pyvista as pv

    from common import pmap

    import cfdtools._cli  # noqa: F401  (loaded once, before the workers)

    q = ctx.quick
    ctx.mc('FileStore')
    scen = ctx.gen('FileStore', 'FileStoreGen', simulate=(600 if q else 6000, 60))
    rng, wd = ctx.rng, ctx.subdir('store')
    vtus = []
    for i in range(2):
        g = pv.UnstructuredGrid({pv.CellType.HEXAHEDRON: np.array([[0, 1, 2, 3, 4, 5, 6, 7]])}, np.array(gen.CORNERS, dtype=float))
        g.cell_data['q'] = np.array([1.0 + i])
        vtus.append(ctx.path('vtu', f's{i}.vtu'))
        g.save(vtus[-1])
    jobs = [(f's{i}', dict(s, vtu=vtus), rng.randrange(1 << 30), wd) for i, s in enumerate(scen[: 500 if q else 5000])]
    cases = pmap(store_case, jobs)
    ctx.notes['commands run'] = sum(1 for c in cases for e in c['ev'] if e['op'] == 'conv')
    ctx.validate('StoreTrace', cases)
