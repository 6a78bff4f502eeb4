"""C12: series of VTK files are read in the order of the cells of the first file."""
import contextlib
import io
import os
import random
import shutil
from pathlib import Path

import numpy as np

import big
import bigger
import gen
import life
from common import errtxt, outcome, pmap

ASSUMPTIONS = ['cells are located by their centres, which are far from each other compared with the tolerance', 'displacements are not within 20 % of the tolerance',
               'no field is called "time"', 'linear cells of dimension 2 or 3']
VTK = {'tri3': 5, 'quad4': 9, 'tetra4': 10, 'pyra5': 14, 'prism6': 13, 'hexa8': 12}
UNIT = {'default': 1e-10 / 8, 'loose': 1e-4 / 8, 'coarse': 1e-3 / 8}
T = {'case': 64, 'wide': 10000}
DTYPE = {'int': np.int64, 'single': np.float32}
WIDTH = {'vector': 3, 'tensor': 9, 'two': 2}


def rows(a):
    """values of each cell, exactly (type and bits)"""
    a = np.asarray(a)
    a = a.reshape(len(a), -1)
    t = a.dtype.kind + str(a.dtype.itemsize)
    return [[t + r[i:i + 1].tobytes().hex() for i in range(len(r))] for r in (np.ascontiguousarray(x) for x in a)]


def values(kind, n, rng):
    w = WIDTH.get(kind, 1)
    if kind == 'int':
        a = np.array([rng.randrange(-2 ** 40, 2 ** 40) for _ in range(n * w)], dtype=np.int64)
    else:
        a = np.array([rng.choice([rng.random(), rng.gauss(0, 1e5), -0.0, 1e-300]) + i for i in range(n * w)], dtype=DTYPE.get(kind, float))
        if rng.random() < 0.1:  # also a few values with no arithmetic
            a[rng.randrange(len(a))] = rng.choice([float('nan'), float('inf'), float('-inf'), -0.0, 5e-324])
    return a.reshape(n, w) if w > 1 else a


def shuffle(order, seq, rng):
    seq = list(seq)
    if order == 'swap' and len(seq) > 1:
        i, j = rng.sample(range(len(seq)), 2)
        seq[i], seq[j] = seq[j], seq[i]
    elif order == 'rotate':
        k = rng.randrange(1, 1 + len(seq))
        seq = seq[k:] + seq[:k]
    elif order == 'reverse':
        seq.reverse()
    elif order == 'random':
        rng.shuffle(seq)
    return seq


def shift(kind, rng):
    """a displacement in units: well below, or well above the tolerance (8 units)"""
    if kind == 'small':
        return rng.choice([(1, 0, 0), (0, -4, 0), (2, 2, 2), (0, 0, 5), (-3, 3, 0), (5, 0, 0), (6, 0, 0), (7, 0, 0)])
    return rng.choice([(16, 0, 0), (0, 0, -20), (0, 12, 12), (-40, 1, 0), (10, 10, 10), (10, 0, 0), (11, 0, 0), (12, 0, 0)])


class World:
    def __init__(self, root, sc, rng):
        self.sc, self.rng, self.root = sc, rng, root
        if sc['src'] == 'plane':
            d = rng.choice([(1, 1), (2, 1), (2, 2), (3, 2)])
            gm = gen.plane_mesh(d[0], d[1], [rng.choice(['Q', 'T0', 'T1']) for _ in range(d[0] * d[1])]).shuffled(rng)
        else:
            gm = life.make_gm(sc['src'], rng)
        self.gm = gm
        self.xyz = np.array(gm.coords, dtype=float).reshape(-1, 3)
        if rng.random() < 0.3:
            self.xyz += rng.choice([-3.0, 0.5])
        self.dim = gm.dim
        self.unit = UNIT[sc['unit']]
        self.kinds = [(f'{"PTUVab"[i]}{["", " 1", "_avg"][rng.randrange(3)]}', k) for i, k in enumerate(sc['kinds'])]
        self.versions, self.cur, self.paths = [], [], []

    def record(self, f, k):
        """makes file number k of the list as described by f; returns its version (0: absent)"""
        import pyvista as pv

        rng = self.rng
        path = os.path.join(self.root, f'f{k}.{f["ext"]}') if k >= len(self.paths) else self.paths[k]
        if f['missing'] and k:
            if os.path.exists(path):
                os.remove(path)
            return path, 0
        n = self.gm.ncell
        cells = [[i, (0, 0, 0)] for i in range(n)]
        own = rng.random() < 0.2  # each cell has its own points
        if k:
            if f['cells'] == 'drop' and n > 1:
                cells.pop(rng.randrange(n))
            elif f['cells'] == 'double' and n > 1:
                i, j = rng.sample(range(n), 2)
                cells[i][0] = j
                own = True
            elif f['cells'] == 'extra':
                cells.append([rng.randrange(n), (0, 0, 0)])
                own = True
            elif f['cells'] == 'one':
                cells = [cells[rng.choice([0, 0, rng.randrange(n)])]]
            elif f['cells'] == 'other':
                cells[rng.randrange(n)][0] = n  # a place that is not one of the ground
            if f['disp'] in ('cellsmall', 'cellbig'):
                cells[rng.randrange(len(cells))][1] = shift(f['disp'][4:], rng)
                own = True
            cells = shuffle(f['order'], cells, rng)
        base = (6 * k, 0, 0) if self.sc['drift'] else shift(f['disp'], rng) if k and f['disp'] in ('small', 'big') else (0, 0, 0)
        cells = [(p, tuple(a + b for a, b in zip(d, base))) for p, d in cells]
        # points: shared by the cells of the same displacement, or own
        if not own:
            ids = [(v, cells[0][1]) for v in range(len(self.xyz))]
            if k:
                ids = shuffle(f['nodes'], ids, rng)
            num = {p[0]: i for i, p in enumerate(ids)}
            conn = [[num[v] for v in self.corners(p)] for p, _ in cells] if all(p < n for p, _ in cells) else None
        if own or conn is None:
            ids, conn = [], []
            for p, d in cells:
                conn.append(list(range(len(ids), len(ids) + len(self.corners(p)))))
                ids += [(v + (1000 if p == n else 0), d) for v in self.corners(p)]
        pts = np.array([self.xyz[v % 1000] + (50.0 if v >= 1000 else 0.0) + np.array(d) * self.unit for v, d in ids])
        arr = np.concatenate([np.array([len(c)] + c) for c in conn])
        grid = pv.UnstructuredGrid(arr, np.array([VTK[self.kind(p)] for p, _ in cells], dtype=np.uint8), pts)
        kinds = list(self.kinds)
        if k and f['fields'] == 'fewer' and kinds:
            kinds.pop(rng.randrange(len(kinds)))
        if f['fields'] == 'more':
            kinds.append(('Extra', 'scalar'))
        rng.shuffle(kinds)
        fields = []
        for name, kind in kinds:
            a = values(kind, len(cells), rng)
            grid.cell_data[name] = a
            fields.append([name, rows(a)])
        for name in rng.sample([x[0] for x in self.kinds] + ['Pnode'], rng.randrange(2)):
            grid.point_data[name] = np.arange(len(pts), dtype=float)
        time = {'none': None, 'zero': 0.0, 'value': rng.choice([3.75, 1 / 3, 1e-9]), 'negative': -2.5}[f['time']]
        if time is not None:
            grid.field_data['TimeValue'] = np.array([time])
        grid.save(path)
        self.versions.append({'here': True, 'cells': [[p, list(d)] for p, d in cells], 'nodes': [[v, list(d)] for v, d in ids], 'fields': fields,
                              'time': [] if time is None else rows(np.array([time]))[0]})
        return path, len(self.versions)

    def kind(self, p):
        return self.gm.cells[p % self.gm.ncell][0]

    def corners(self, p):
        return list(self.gm.cells[p % self.gm.ncell][1])

    def filter(self, kind, form):
        names = [n for n, _ in self.kinds]
        if kind == 'none' or not names:
            return None
        if kind == 'empty':
            return []
        if kind == 'unknown':
            return self.rng.sample(names, self.rng.randrange(len(names))) + ['nothing']
        if kind == 'point':
            return ['Pnode']
        r = self.rng.sample(names, 1 if kind == 'one' else self.rng.randrange(1, 1 + len(names)))
        if kind == 'twice':
            r = r + r[:1]
        return r if form else tuple(r)


def held(vl):
    """what the list holds: for each file, values of its fields, and time"""
    res = []
    for d in vl._data._datalist:
        d = dict(d.items())
        t = d.pop('time', None)
        res.append({'fields': [[str(k), rows(v)] for k, v in d.items()], 'time': [] if t is None else rows(np.atleast_1d(t))[0]})
    return res


def case(job):
    cid, sc, seed, wd = job
    import cfdtools.vtk as vtk

    rng = random.Random(seed)
    root = os.path.join(wd, cid)
    os.mkdir(root)
    w = World(root, sc, rng)
    for k, f in enumerate(sc['files']):
        if sc['drift'] and rng.random() < 0.7:
            f = {**f, 'disp': 'none', 'cells': 'same', 'missing': False}
        p, v = w.record(f, k)
        w.paths.append(p)
        w.cur.append(v)
    order = list(range(len(w.paths)))
    if sc['repeat']:
        order.append(rng.choice(order))
    as_path = [{'str': False, 'path': True, 'mix': rng.random() < 0.5}[sc['paths']] for _ in order]
    ev = []
    with contextlib.redirect_stdout(io.StringIO()):
        vl = vtk.vtkList([Path(w.paths[i]) if p else w.paths[i] for i, p in zip(order, as_path)], verbose=sc['verbose'])
        for op in sc['ops']:
            if op['op'] == 'rewrite':
                k = (op['which'] - 1) % len(w.paths)
                w.cur[k] = w.record(op['file'], k)[1]
                continue
            e = {'op': op['op'], 'cur': [w.cur[i] for i in order], 'exc': '', 'T': T[op['tol']]}
            tol = {'tol': {'case': 8, 'wide': 100}[op['tol']] * w.unit}
            if op['tol'] == 'case' and sc['unit'] == 'default' and rng.random() < 0.7:
                tol = {}
            if op['op'] == 'exist':
                ok, r = outcome(vl.allexist)
                e['ret'] = ok and bool(r)
            elif op['op'] == 'check':
                e['pos'] = 'node' if op['pos'] == 'node' else 'cellcenter'
                ok, r = outcome(lambda: vl.check_order(**({} if op['pos'] == 'default' else {'pos': op['pos']}), **tol))
                e['ret'] = ok and bool(r)
            else:
                f = w.filter(op['filter'], rng.random() < 0.7)
                e['filter'] = list(f or [])
                if rng.random() < 0.3:
                    tol['tolverbose'] = rng.choice([0.0, 1.0, w.unit])
                ok, r = outcome(lambda: (vl.read(**({} if f is None and rng.random() < 0.5 else {'filterdata': f}), **tol), held(vl))[1])
                e['got'] = r if ok else []
            if not ok:
                e['exc'] = errtxt(r)
            ev.append(e)
    shutil.rmtree(root)
    return {'id': cid, 'files': w.versions, 'ev': ev}


def run(ctx):
    q = ctx.quick
    ctx.mc('SeriesAlg')
    ctx.mc('SeriesAlg', 'SeriesAlgLong')
    if not q:
        ctx.mc('SeriesAlg', 'SeriesAlgBig')
    scen = ctx.gen('GenSeries', simulate=(700 if q else 8000, 3))
    wd = ctx.subdir('series')
    cases = [c for c in pmap(case, [(f's{i}', s, ctx.rng.randrange(1 << 30), wd) for i, s in enumerate(scen)]) if c['ev']]
    ops = [e for c in cases for e in c['ev']]
    for op in ('read', 'check', 'exist'):
        ctx.notes[op] = sum(e['op'] == op for e in ops)
    ctx.notes['readings refused'] = sum(e['op'] == 'read' and e['exc'] != '' for e in ops)
    ctx.validate('SeriesTrace', cases)
    big.judge(ctx, bigger.series_case, [(f'big{i}', d, ctx.rng.randrange(1 << 30), wd) for i, d in enumerate(big.sizes(ctx))])
