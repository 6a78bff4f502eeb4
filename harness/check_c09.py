"""C09: conversion commands write exactly the requested transformation."""
import contextlib
import io
import os
import random
import shutil

import numpy as np

import cgnsfmt
import check_c07
import check_c08
import gen
import ic3fmt
import life
import mshfmt
import proj
from common import errtxt, fbits, outcome, pmap

ASSUMPTIONS = ['cells of the input for extrusion are plane, and for VTU output the input has cells (IC3 files have faces only)',
               'marks and data are part of what an IC3 file can hold; a VTU file holds the nodes and the cells',
               'data with several degrees of freedom are written in version 3', 'names given to options are taken literally']
EXT = {'msh': '.msh', 'cgns': '.cgns', 'ic3': '.ic3'}
FMT = {'msh': 'GMSH', 'cgns': 'CGNS', 'ic3': 'IC3'}
NOFILE = ic3fmt.parse(b'')


def state(mesh):
    s = proj.p_mesh(mesh)
    s['pts'] = []
    return s


def cells_source(sc, rng, path):
    """writes a file of cells; (content for the specification, dimension)"""
    plane = sc['src'].startswith('plane')
    if plane:
        d = rng.choice([(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3)])
        gm = gen.plane_mesh(d[0], d[1], [rng.choice(['Q', 'Q', 'T0', 'T1']) for _ in range(d[0] * d[1])]).shuffled(rng)
        xyz = np.array(gm.coords, dtype=float)[:, check_c08.axes(rng)] / rng.choice([1, 8])
    else:
        gm = life.make_gm(rng.choice(['tetra1', 'prism1', 'hexa', 'prism', 'small', 'mixed']), rng)
        xyz = np.asarray(life.make_coords(gm, rng))
    names = ['wall', 'in let', 'w 2', 'out']
    if rng.random() < 0.15:  # any faces: marks may overlap
        marks = [(n, [list(w) for w in ws]) for n, ws in zip(names, gen.patches(gm, rng, sc['npatch'], 1.0 if sc['cover'] == 'all' else 0.5)) if ws]
    else:
        mk, walk, marks = life.Marker(gm, rng), {frozenset(w): list(w) for w in gm.boundary()}, []
        for k in range(sc['npatch']):
            ws = mk.choose('rest' if sc['cover'] == 'all' and k == sc['npatch'] - 1 else rng.choice(['some', 'free', 'side']), 'node')
            if plane:  # a mark holding the nodes of a plane cell holds the ends of its extrusion too: marks would overlap
                ws = sorted(ws, key=sorted)
                rng.shuffle(ws)
                while ws and any(set(nd) <= set().union(*ws) for _, nd in gm.cells):
                    ws.pop()
            mk.claimed |= mk.closure(set().union(*ws))
            if ws:
                marks.append((names[k], [walk[f] for f in ws]))
    src = {'xyz': [[fbits(v) for v in p] for p in xyz.tolist()], 'cells': [[i, et, list(nd)] for i, (et, nd) in enumerate(gm.cells)],
           'marks': [{'name': n, 'index': sorted({v for w in ws for v in w})} for n, ws in marks]}
    pts = [tuple(float(v) for v in p) for p in xyz.tolist()]
    kind = sc['src'].replace('plane', '').replace('msh', '')
    if kind in ('22', '41'):
        gm.coords = pts
        if kind == '22':
            text = mshfmt.simple(gm, marks)
        else:
            dim, k = gm.dim, len(marks)
            names = {(dim - 1, i + 1): n for i, (n, _) in enumerate(marks)}
            names[dim, k + 1] = 'fluid'
            eb = []
            for i, (_, ws) in enumerate(marks):
                for t in sorted({gen.FT[len(w)] for w in ws}):
                    eb.append((t, i + 1, [w for w in ws if gen.FT[len(w)] == t]))
            for t in sorted({et for et, _ in gm.cells}):
                eb.append((t, 1, [nd for et, nd in gm.cells if et == t]))
            phys = {(dim - 1, i + 1): [i + 1] for i in range(k)}
            phys[dim, 1] = [k + 1]
            text = mshfmt.v41(pts, names, list(range(1, len(pts) + 1)), [(dim, 1, False, list(range(len(pts))))], eb, phys)
        with open(path, 'w') as f:
            f.write(text)
    else:
        secs, first, bcs = [], 1, []
        for t in sorted({et for et, _ in gm.cells}):
            conn = [[n + 1 for n in nd] for et, nd in gm.cells if et == t]
            secs.append({'name': f'vol {t}', 'type': t, 'first': first, 'conn': conn})
            first += len(conn)
        for n, ws in marks:
            a = first
            for t in sorted({gen.FT[len(w)] for w in ws}):
                conn = [[v + 1 for v in w] for w in ws if gen.FT[len(w)] == t]
                secs.append({'name': f'{n} {t}', 'type': t, 'first': first, 'conn': conn})
                first += len(conn)
            bcs.append({'name': n, 'kind': 'BCWall', 'how': 'list', 'loc': 'FaceCenter', 'index': list(range(a, first))})
        cgnsfmt.write(path, [{'name': 'Base', 'cell_dim': gm.dim, 'zones': [{'name': 'Zone', 'coords': pts, 'ncell': gm.ncell, 'sections': secs, 'bcs': bcs}]}])
    return src, plane


def ic3_source(sc, rng, path):
    """writes an IC3 file by hand, or by a writer; returns whether the data have several degrees of freedom"""
    dof = sc['fields'].startswith('dof')
    if sc['src'] == 'fab':
        kinds = rng.sample(['NO_D1', 'NO_D3', 'CV_D1', 'CV_D3', 'CV_D33'] + ['NO_II1', 'CV_II1'] * (sc['ver'] == 3), rng.randrange(0, 5))
        s = {'no': rng.choice([4, 6, 9]), 'fa': rng.choice([3, 5, 7]), 'cv': rng.choice([1, 2, 4]), 'kinds': kinds, 'ndof': int(sc['fields'][3]) if dof and sc['ver'] == 3 else 1}
        b = ic3fmt.fabricate(sc['ver'], rng.choice('<>'), life.fabricated(s, rng))
        if rng.random() < 0.3:
            b = life.permute(b, rng.choice(['foreign', 'permuted']), rng)
        with open(path, 'wb') as f:
            f.write(b)
        return s['ndof'] > 1
    gm = life.make_gm(rng.choice(['hexa', 'prism', 'small', 'mixed']), rng)
    nd, cd, ndof = life.make_fields(sc['fields'], gm.nnode, gm.ncell, rng)
    mesh, _ = proj.build_mesh(gm, rng, 'default', life.make_coords(gm, rng))
    life.set_fields(mesh, nd, cd, ndof)
    mesh.set_params(life.make_state(sc['state'], rng))
    if sc['part']:
        mesh.set_partition({'npart': 3, 'icvpart': np.array([rng.randrange(3) for _ in range(gm.ncell)])})
    mk = life.Marker(gm, rng)
    for _ in range(sc['npatch']):
        life.add_mark(mesh, mk, {'kind': 'node', 'rel': rng.choice(['some', 'free', 'side']), 'type': rng.choice(['boundary', 'perio_cart', 'perio_cylx']), 'name': rng.choice(['plain', 'space', 'long'])}, rng)
    life.writer_of(3 if dof else sc['ver'])(mesh, endian=rng.choice(['native', 'little', 'big'])).write_data(path)
    return dof


def factors(kind, rng):
    n = lambda: rng.choice([2.0, 0.5, 0.1, 3.0, 1000.0, 25.4e-3, 1 / 3, round(rng.uniform(0.1, 9), 3)])
    return {'none': None, 'any': [n(), n(), n()], 'same': [n()] * 3, 'one': [1.0, 1.0, n()] if rng.random() < 0.5 else [n(), 1.0, 1.0], 'ones': [1.0] * 3,
            'zero': [n(), n(), 0.0] if rng.random() < 0.6 else [0.0] * 3, 'negative': [-1.0, n(), -0.5], 'huge': [1e10, 1e-10, 1.0]}[kind]


def text(v, rng):
    if v == int(v) and abs(v) < 1e6 and rng.random() < 0.5:
        return str(int(v))
    return repr(v)


def names_of(styles, here, there, rng):
    res = []
    for s in styles:
        if s in ('cell', 'node'):
            if here:
                res.append(rng.choice(here))
        elif s == 'again' and res:
            res.append(rng.choice(res))
        elif s == 'upper' and here:
            n = rng.choice(here)
            res.append(n.swapcase())
        elif s == 'head' and here:
            n = rng.choice(here)
            res.append(n[:-1] or n)
        else:
            res.append(rng.choice((there or []) + ['nothing']))
    return [n for n in res if n and not n.startswith('-')]


def read(fmt, path):
    import cfdtools._cli  # noqa: F401  (registers the formats)
    import cfdtools.api as api

    r = api._fileformat_map[fmt]['reader'](path)
    r.read_data()
    return r.export_mesh()


def grid(path):
    import pyvista as pv

    inv = {3: 'bar2', 5: 'tri3', 9: 'quad4', 10: 'tetra4', 14: 'pyra5', 13: 'prism6', 12: 'hexa8'}
    g = pv.read(path)
    return {'xyz': [[fbits(v) for v in p] for p in np.asarray(g.points).astype(float)],
            'cells': [[i, inv.get(int(g.celltypes[i]), 'other'), [int(v) for v in g.get_cell(i).point_ids]] for i in range(g.n_cells)]}


def exact(xyz, unit):
    """coordinates in the given unit; rounding of the division by the number of layers only"""
    q = np.asarray(xyz, dtype=float) * unit
    r = np.round(q)
    assert np.all(np.abs(q - r) < 1e-9 * np.maximum(1, np.abs(r))), 'coordinates are not those expected'
    return [[int(v) for v in p] for p in r]


class World:
    def __init__(self, root, cid, sc, rng):
        self.sc, self.rng, self.root = sc, rng, os.path.join(root, cid)
        self.cwd = os.path.join(self.root, 'work')
        for d in ('work/sub', 'other', 'abs'):
            os.makedirs(os.path.join(self.root, d))
        stem = 'mesh' if sc['name'] == 'noext' else sc['name']
        kind = 'msh' if 'msh' in sc['src'] or sc['src'] in ('plane22', 'plane41') else 'cgns' if 'cgns' in sc['src'] else 'ic3'
        ext = '' if sc['name'] == 'noext' else EXT[kind]
        self.path = os.path.join(self.root, {'cwd': 'work', 'sub': 'work/sub', 'other': 'other'}[sc['folder']], stem + ext)
        self.kind, self.ev, self.dof, self.plane = kind, [], False, False
        self.first = None

    def start(self):
        sc, rng = self.sc, self.rng
        if self.kind == 'ic3':
            self.dof = ic3_source(sc, rng, self.path)
            with open(self.path, 'rb') as f:
                self.ev.append({'op': 'file', 'from': 0, 'exc': '', 'file': ic3fmt.parse(f.read()), 'm': {}})
        else:
            src, self.plane = cells_source(sc, rng, self.path)
            self.ev.append({'op': 'source', 'exc': '', 'src': src, 'm': {}})
        return self.hold(self.ev[-1])

    def hold(self, e):
        """the mesh read from the input"""
        ok, r = outcome(lambda: (lambda m: (m, state(m)))(read(FMT[self.kind], self.path)))
        if not ok:
            e['exc'] = errtxt(r)
            return False
        self.mesh, e['m'] = r
        self.at = len(self.ev)
        self.first = self.first or (self.path, self.kind, self.at, self.mesh, self.plane, self.dof)
        return True

    def tree(self, before, stamps, op, ret):
        after = check_c07.snap(self.root)
        new = [x[0] for x in after if x not in before and x[1] != 'dir']
        same = all(x in after for x in before) and all(check_c07.stamp(os.path.join(self.root, p)) == s for p, s in stamps.items())
        r = os.path.relpath(os.path.join(self.cwd, ret), self.root) if isinstance(ret, (str, os.PathLike)) else ''
        return {'same': same, 'new': new, 'ret': r, 'dir': os.path.dirname(r), 'suf': os.path.splitext(r)[1],
                'name': os.path.basename(r), 'wantname': self.name if op else '',
                'wantdir': {'none': 'work', 'sub': 'work/sub', 'abs': 'abs', 'up': 'other'}[op['out']] if op else ''}

    def stem(self):
        return os.path.splitext(os.path.basename(self.path))[0]

    def snap(self):
        before = check_c07.snap(self.root)
        return before, {x[0]: check_c07.stamp(os.path.join(self.root, x[0])) for x in before if x[1] == 'file'}

    def look(self, what):
        import cfdtools._cli as cli

        if what == 'brief' and self.kind != 'ic3':
            return True
        before, stamps = self.snap()
        p = os.path.relpath(self.path, self.cwd)
        argv = [p] + ([] if p.endswith(EXT[self.kind]) else ['--fmt', FMT[self.kind]])
        f = cli.cfdinfo if what == 'info' else cli.ic3brief
        if what == 'brief':
            argv = [p]
        ok, r = outcome(f, argv)
        self.ev.append({'op': 'look', 'exc': '' if ok else errtxt(r), 'tree': self.tree(before, stamps, None, '')})
        return ok

    def extruded(self, nz):
        """what the library makes of the same mesh"""
        e = {'op': 'extrude', 'from': self.at, 'nz': nz, 'exc': '', 'pts': [], 'm': {}}

        def go():
            m = self.mesh.export_extruded(extrude=np.linspace(0.0, 1.0, nz + 1, endpoint=True))
            s = state(m)
            s['pts'] = exact(m.nodescoord(ndarray=True), 8 * nz)
            return s, exact(self.mesh.nodescoord(ndarray=True), 8 * nz)

        ok, r = outcome(go)
        self.ev.append(e)
        if not ok:
            e['exc'] = errtxt(r)
            return None
        e['m'], e['pts'] = r
        return len(self.ev)

    def convert(self, op):
        import cfdtools._cli as cli

        rng = self.rng
        ver = {'ic3v2': 2, 'ic3v3': 3, 'vtk': 0}[op['cmd']]
        faces = self.kind == 'ic3'
        if faces and ver == 0:
            ver = 3
        if self.dof:
            ver = 3
        nz = op['nz'] if self.plane else 0
        if nz * (self.mesh.ncell or 0) > 60:
            nz = nz % 7 + 1
        if self.plane and ver and not nz:
            nz = 2
        base = self.at
        if nz:
            base = self.extruded(nz)
            if base is None:
                return False
        m = self.ev[base - 1]['m']
        cf, nf = [d[0] for d in m['cd']], [d[0] for d in m['nd']]
        o = {'ver': ver, 'cells': names_of(op['rmcell'], cf, nf, rng), 'nodes': names_of(op['rmnode'], nf, cf, rng), 'nz': nz}
        s = factors(op['scale'], rng)
        o['scale'] = [fbits(v) for v in s] if s else []
        mul = {}
        if s:
            for p in m['xyz']:
                for a, t in enumerate(p):
                    mul[t + '*' + o['scale'][a]] = fbits(unhex(t) * s[a])
        p = self.path if rng.random() < 0.3 else os.path.relpath(self.path, self.cwd)
        opts = []
        if s:
            opts.append(['--scale'] + [text(v, rng) for v in s])
        if nz:
            opts.append(['--extrude', str(nz)])
        if op['out'] != 'none':
            opts.append(['--outpath', {'sub': 'sub', 'abs': os.path.join(self.root, 'abs'), 'up': rng.choice(['../other', '../other/'])}[op['out']]])
        opts += [[x] for x, k in (('--info', 'info'), ('--check', 'check')) if op[k]]
        if op['log']:
            opts.append(['--log', rng.choice(['info', 'debug', 'warning'])])
        if op['fmt'] or not p.endswith(EXT[self.kind]):
            opts.append(['--fmt', FMT[self.kind]])
        rm = []
        if o['cells']:
            rm.append(['--remove-cell-data'] + o['cells'])
        if o['nodes']:
            rm.append(['--remove-node-data'] + o['nodes'])
        if op['rmface']:
            rm.append(['--remove-face-data', rng.choice(cf + nf + ['nothing'])])
        rng.shuffle(opts)
        rng.shuffle(rm)
        if op['sep'] == 'last':
            argv = [p] + sum(opts + rm, [])
        elif op['sep'] == 'option' and opts:
            argv = sum(rm + opts, []) + [p]
        else:
            argv = sum(opts + rm, []) + ['--', p]
        if op['taken']:  # a file has the name of the output
            d = {'none': 'work', 'sub': 'work/sub', 'abs': 'abs', 'up': 'other'}[op['out']]
            t = os.path.join(self.root, d, self.stem() + ('.ic3' if ver else '.vtu'))
            if not os.path.lexists(t):
                with open(t, 'w') as f:
                    f.write('something else')
        d = {'none': 'work', 'sub': 'work/sub', 'abs': 'abs', 'up': 'other'}[op['out']]
        name = self.stem() + ('.ic3' if ver else '.vtu')
        self.name = '' if os.path.lexists(os.path.join(self.root, d, name)) else name
        before, stamps = self.snap()
        f = {2: cli.cfdwrite_ic3v2, 3: cli.cfdwrite_ic3v3, 0: cli.cfdwrite_vtk}[ver]
        ok, ret = outcome(f, argv)
        e = {'op': 'conv', 'from': base, 'o': o, 'mul': mul, 'faces': faces, 'exc': '' if ok else errtxt(ret), 'out': NOFILE, 'argv': argv,
             'tree': self.tree(before, stamps, op, ret if ok else '')}
        self.ev.append(e)
        if not ok:
            return False
        path = os.path.join(self.cwd, ret)
        if ver:
            if os.path.isfile(path):
                with open(path, 'rb') as fid:
                    e['out'] = ic3fmt.parse(fid.read())
            if op['next'] == 'output' and os.path.isfile(path):
                self.path, self.kind, self.plane = path, 'ic3', False
                self.ev.append({'op': 'file', 'from': len(self.ev), 'exc': '', 'm': {}})
                return self.hold(self.ev[-1])
        else:
            g, r = outcome(grid, path)
            e['out'] = r if g else {'xyz': [], 'cells': []}
        if op['next'] != 'output':
            self.path, self.kind, self.at, self.mesh, self.plane, self.dof = self.first
        return True


def unhex(t):
    import struct

    return struct.unpack('>d', bytes.fromhex(t))[0]


def case(job):
    cid, sc, seed, wd = job
    w = World(wd, cid, sc, random.Random(seed))
    old = os.getcwd()
    os.chdir(w.cwd)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            if w.start():
                for op in sc['ops']:
                    if op['look'] != 'no' and not w.look(op['look']) or not w.convert(op):
                        break
    finally:
        os.chdir(old)
        shutil.rmtree(w.root)
    return {'id': cid, 'ev': w.ev}


def run(ctx):
    q = ctx.quick
    ctx.mc('PipeBox')
    scen = ctx.gen('GenPipe', simulate=(700 if q else 8000, 3))
    wd = ctx.subdir('pipe')
    cases = pmap(case, [(f'p{i}', s, ctx.rng.randrange(1 << 30), wd) for i, s in enumerate(scen)])
    conv = [e for c in cases for e in c['ev'] if e['op'] == 'conv']
    ctx.notes['commands'] = len(conv)
    ctx.notes['refused'] = sum(e['exc'] != '' for e in conv)
    ctx.validate('PipeTrace', cases)
