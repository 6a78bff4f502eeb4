"""C13: averaging along a transverse direction uses exactly the cells of each column."""
import contextlib
import io
import math
import os
import random
import re

import numpy as np

import big
import bigger
import gen
from common import errtxt, fbits, outcome, pmap
from check_c12 import VTK, rows, shuffle

ASSUMPTIONS = ['planes are far from each other, and places in a plane too, compared with the tolerance; displacements are well below or well above it',
               'values are integers, statistics are compared within rounding (1/8 of a unit for amplitudes)', 'modes asked for are less than the number of planes',
               'names of results do not clash (no field named like a result)']
UNIT = {'default': 1e-6 / 8, 'loose': 1e-3 / 8}
OFF = {'tri3': [(0, 0, 0), (1, 0, 0), (0, 1, 0)], 'quad4': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], 'tetra4': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
       'pyra5': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (.5, .5, 1)], 'prism6': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
       'hexa8': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}


def template(et, rng, flat=False):
    """corners of a cell about its centre"""
    import pyvista as pv

    p = np.array(OFF[et], dtype=float) * 0.5 + (0 if flat else np.array([[rng.random() * 0.05 for _ in range(3)] for _ in OFF[et]]))
    g = pv.UnstructuredGrid(np.array([len(p)] + list(range(len(p)))), np.array([VTK[et]], dtype=np.uint8), p)
    return p - g.cell_centers().points[0]


def frame(d):
    """placing of (a, b, t) and of local vectors; the function for the code (None: default)"""
    if d == 'theta':
        def place(a, b, t, loc):
            q = np.array([6 + a, 0, b]) + loc
            c, s = math.cos(0.25 * t), math.sin(0.25 * t)
            return np.array([c * q[:, 0] - s * q[:, 1], s * q[:, 0] + c * q[:, 1], q[:, 2]]).T

        return place, lambda x: (np.array([np.hypot(x[:, 0], x[:, 1]), x[:, 2]]).T, 4 * np.arctan2(x[:, 1], x[:, 0]))
    if d == 'line':  # plane grid, averaged along y
        return lambda a, b, t, loc: np.array([a, t, 0]) + loc, lambda x: (x[:, 0:1], x[:, 1])
    ax = {'default': (0, 1, 2, 1), 'z': (0, 1, 2, 1), 'x': (1, 2, 0, 1), 'y': (0, 2, 1, 1), '-z': (0, 1, 2, -1), '-x': (1, 2, 0, -1), 'swap': (2, 0, 1, 1)}[d]

    def place(a, b, t, loc):
        q = np.zeros(3)
        q[ax[0]], q[ax[1]], q[ax[2]] = a, b, ax[3] * t
        return q + loc

    return place, None if d == 'default' else lambda x: (np.array([x[:, ax[0]], x[:, ax[1]]]).T, ax[3] * x[:, ax[2]])


class Grid:
    def __init__(self, sc, rng):
        d = 'line' if sc['layout'] == 'line' else sc['dir']
        if sc['layout'] == 'shared' and d == 'theta':
            d = 'y'
        self.place, self.split = frame(d)
        unit = UNIT[sc['tol']]
        npl = sc['np']
        defect = sc['defect']
        if sc['layout'] == 'shared':
            n = rng.choice([(1, 1), (2, 1), (2, 2), (3, 2)])
            pm = gen.plane_mesh(n[0], n[1], [rng.choice(['Q', 'T0', 'T1']) for _ in range(n[0] * n[1])])
            cols = [('hexa8' if et == 'quad4' else 'prism6', nd) for et, nd in pm.cells]
            base = np.array(pm.coords, dtype=float)[:, :2]
            base += np.array([[rng.random() * 0.2 for _ in range(2)] for _ in base])
        else:
            types = ['quad4', 'quad4', 'tri3'] if d == 'line' else ['hexa8', 'hexa8', 'prism6', 'tetra4', 'pyra5', 'quad4', 'tri3'] if rng.random() < 0.6 else ['hexa8']
            cols = [(rng.choice(types), None) for _ in range(rng.choice([1, 2, 3, 4, 6]))]
            spots = rng.sample([(i, j) for i in range(4) for j in range(4)], len(cols)) if d != 'line' else [(i, 0) for i in rng.sample(range(8), len(cols))]
            tmpl = [template(et, rng, d == 'line') for et, _ in cols]
        todo = [{'col': c, 'd': [0, 0], 'Z': k, 'dz': 0, 'own': False} for k in range(npl) for c in range(len(cols))]
        nc = len(cols)
        at = lambda k, c: todo[k * nc + c]
        k, c = rng.randrange(npl), rng.randrange(nc)
        big = rng.choice([100, -100, 200])
        step = rng.choice([1, 1, 2])
        for t in todo:
            t['Z'] *= step
        if defect == 'jitter':
            for t in todo:
                if rng.random() < 0.4:
                    t['d'], t['dz'], t['own'] = [rng.randrange(-2, 3), rng.randrange(-2, 3)], rng.randrange(-3, 4), True
            if d == 'line':
                for t in todo:
                    t['d'][1] = 0
        elif defect == 'planeshift':
            for j in range(nc):
                at(k, j)['d'], at(k, j)['own'] = [big, 0], True
        elif defect == 'cellshift':
            big = rng.choice([big, 16, -18])
            at(k, c)['d'], at(k, c)['own'] = [0, big] if d != 'line' and rng.random() < 0.5 else [big, 0], True
        elif defect == 'missing':
            todo.pop(k * nc + c)
        elif defect == 'extra':
            todo.append({**at(k, c), 'own': True})
        elif defect in ('both', 'moved') and npl > 1:  # a cell less in a plane, one more in another
            e = at(rng.choice([x for x in range(npl) if x != k]), rng.randrange(nc) if defect == 'both' else c)
            extra = {**e, 'own': True}
            if sc['layout'] != 'shared' and rng.random() < 0.5:
                extra['d'] = [200, 0]
            todo.pop(k * nc + c)
            todo.append(extra)
        elif defect == 'double' and nc > 1:  # a cell twice, another one missing
            e = rng.choice([x for x in range(nc) if x != c])
            at(k, c)['col'], at(k, c)['own'] = e, True
        elif defect == 'swapcol' and nc > 1:
            todo[k * nc], todo[k * nc + c] = todo[k * nc + c], todo[k * nc]
        elif defect == 'uneven':
            for t in todo:
                if t['Z'] >= k * step:
                    t['dz'], t['own'] = big, True
        elif defect == 'gap':
            for t in todo:
                if t['Z'] >= max(k, 1) * step:
                    t['Z'] += 1
        elif defect == 'cellz':
            at(k, c)['dz'], at(k, c)['own'] = big, True
        todo = shuffle(sc['order'], todo, rng) if sc['order'] != 'natural' else todo
        pts, conn, types, num, self.cells = [], [], [], {}, []
        for t in todo:
            et, nd = cols[t['col']]
            ids = []
            if sc['layout'] == 'shared':
                for h in (0, 1):
                    for v in nd:
                        key = (v, t['Z'] + h)
                        if t['own'] or key not in num:
                            p = self.place(base[v, 0] + t['d'][0] * unit, base[v, 1] + t['d'][1] * unit, t['Z'] + h + t['dz'] * unit, np.zeros((1, 3)))[0]
                            if not t['own']:
                                num[key] = len(pts)
                            ids.append(len(pts))
                            pts.append(p)
                        else:
                            ids.append(num[key])
            else:
                a, b = spots[t['col']]
                for p in self.place(a + t['d'][0] * unit, b + t['d'][1] * unit, t['Z'] + t['dz'] * unit, tmpl[t['col']]):
                    ids.append(len(pts))
                    pts.append(p)
            conn.append(ids)
            types.append(et)
            # levels closer than the tolerance are one
            self.cells.append({'t': et, 'col': t['col'] + 1, 'd': t['d'], 'z': 1000 * t['Z'] + (t['dz'] if abs(t['dz']) > 8 else 0), 'ids': ids})
        perm = list(range(len(pts)))
        rng.shuffle(perm)
        new = np.empty((len(pts), 3))
        for i, p in zip(perm, pts):
            new[i] = p
        if rng.random() < 0.3:
            new = np.vstack([new, [[9.0, 9.0, 9.0]]])
        self.points, self.conn, self.types = new, [[perm[i] for i in ids] for ids in conn], types
        tok = [[fbits(v) for v in p] for p in self.points]
        for cell, ids in zip(self.cells, self.conn):
            del cell['ids']
            cell['p'], cell['n'] = [tok[i] for i in ids], list(ids)
        self.fields = []
        for i, kind in enumerate(sc['kinds']):
            w = {'vector': 3, 'tensor': 9}.get(kind, 1)
            v = np.array([rng.randrange(-99, 100) for _ in range(w * len(types))])
            if rng.random() < 0.1:
                v[:] = 7
            self.fields.append((['P', 'U 1', 'q_m', 'T.k'][i], v.reshape(-1, w) if w > 1 else v, {'int': np.int64, 'single': np.float32}.get(kind, float)))
        self.np = len({x['z'] for x in self.cells})
        self.tol = 8 * unit

    def pv(self):
        import pyvista as pv

        g = pv.UnstructuredGrid(np.concatenate([np.array([len(c)] + c) for c in self.conn]), np.array([VTK[t] for t in self.types], dtype=np.uint8), self.points)
        for n, v, t in self.fields:
            g.cell_data[n] = v.astype(t)
        g.point_data['node'] = np.arange(len(self.points), dtype=float)
        g.field_data['TimeValue'] = np.array([1.5])
        return g


INV = {v: k for k, v in VTK.items()}


def look(g):
    """cells of a grid with their points"""
    xyz = [[fbits(v) for v in p] for p in np.asarray(g.points, dtype=float)]
    cells, used = [], set()
    c, i = np.asarray(g.cells), 0
    for t in np.asarray(g.celltypes):
        ids = [int(v) for v in c[i + 1:i + 1 + c[i]]]
        i += 1 + c[i]
        used |= set(ids)
        cells.append({'t': INV.get(int(t), 'other'), 'p': [xyz[v] for v in ids]})
    return cells, len(xyz), len(used)


def whole(g):
    """everything a grid holds"""
    return repr((look(g), [[(k, rows(d[k])) for k in sorted(d.keys())] for d in (g.cell_data, g.point_data, g.field_data)]))


def near(x):
    r = round(float(x)) if math.isfinite(x) else 10 ** 6
    return r if abs(x - r) < 1e-3 * max(1, abs(x) * 0.01) else 10 ** 6


def statistics(g, n):
    """results as integers; see ZRel"""
    res = []
    for name in g.cell_data.keys():
        a = np.asarray(g.cell_data[name])
        a = a.reshape(len(a), -1).astype(float)
        m = re.search(r'_k(\d+)_phase$', name)
        if m:
            amp = np.asarray(g.cell_data[name[:-6]]).reshape(len(a), -1).astype(float) * math.sqrt(n) * 16 if name[:-6] in g.cell_data.keys() else np.zeros_like(a)
            whole_ = lambda v: round(float(v)) if math.isfinite(v) and abs(v) < 1e6 else 10 ** 6
            q = [[[whole_(x * math.cos(y)), whole_(x * math.sin(y))] for x, y in zip(r, s)] for r, s in zip(amp, np.nan_to_num(a, nan=9.9))] if amp.shape == a.shape else []
        else:
            f = math.sqrt(n) * 16 if re.search(r'_k\d+$', name) else 16 * n if name.endswith('_rms') else n if name.endswith('_avg') else 1
            if f in (n, 1):
                q = [[near(x * f) for x in r] for r in a]
            else:
                q = [[round(float(x * f)) if math.isfinite(x) and abs(x * f) < 2e4 else -1 for x in r] for r in a]
        res.append([name, q])
    return res


def directive(s, n, rng):
    if s == 'nmode':
        k = rng.randrange(0, max(n, 1))
        return {'nmode': k}, [{'k': 'nmode', 'on': True, 'n': k}]
    if s.startswith('off-'):
        return {s[4:]: False}, [{'k': s[4:], 'on': False, 'n': 0}]
    if s != 'no_avg' and rng.random() < 0.2:
        return {s: True}, [{'k': s, 'on': True, 'n': 0}]
    return s, [{'k': s, 'on': True, 'n': 0}]


def case(job):
    cid, sc, seed, wd = job
    import cfdtools.meshbase._connectivity as connm
    import cfdtools.meshbase._mesh as meshm
    import cfdtools.vtk as vtk

    rng = random.Random(seed)
    gr = Grid(sc, rng)
    g = gr.pv()
    one = len(set(gr.types)) == 1
    if sc['by'] == 'file':
        path = os.path.join(wd, cid + rng.choice(['.vtu', '.vtk']))
        g.save(path)
        vm = vtk.vtkMesh().read(path)
        os.remove(path)
    elif sc['by'] == 'mesh' and one:
        cn = connm.elem_connectivity()
        cn.add_elems(gr.types[0], np.array(gr.conn))
        m = meshm.Mesh(ncell=len(gr.types), nnode=len(gr.points))
        m.set_cell2node(cn)
        m.set_nodescoord_nd(gr.points)
        vm = vtk.vtkMesh(m)
        for n, v, t in gr.fields:
            vm.pyvista_grid.cell_data[n] = v.astype(t)
    else:
        vm = vtk.vtkMesh(pvmesh=g)
    ref = whole(vm.pyvista_grid)
    names = [f[0] for f in gr.fields]
    ev = []
    n = gr.np
    for op in sc['ops']:
        e = {'op': op['op'], 'exc': '', 'res': {'cells': [], 'npoint': 0, 'used': 0, 'fields': []}}
        if op['op'] == 'extract':
            k = rng.randrange(len(gr.cells))
            ids = {'plane': [i for i, c in enumerate(gr.cells) if c['z'] == gr.cells[k]['z']], 'some': rng.sample(range(len(gr.cells)), 1 + k), 'one': [k],
                   'all': rng.sample(range(len(gr.cells)), len(gr.cells))}[op['ids']]
            e['ids'] = [i + 1 for i in ids]
            ok, r = outcome(vm.vtk_extract_cells, rng.choice([list, np.array])(ids))
        else:
            o = {'avg': True, 'rms': op['rms'], 'phase': op['phase'], 'snapshot': op['snapshot'], 'nmode': min(op['nmode'], n - 1)}
            kw = {k: v for k, v in o.items() if k != 'avg'}
            if op['defaults']:
                kw, o = {}, {'avg': True, 'rms': False, 'phase': False, 'snapshot': False, 'nmode': 0}
            e['gen'], e['has'], e['sel'] = o, op['select'] != 'none', []
            if e['has']:
                sel = {}
                if op['select'] != 'empty':
                    for s in op['sel']:
                        if not names:
                            break
                        name = names[(s['name'] - 1) % len(names)]
                        if name in sel:
                            continue
                        ds = [directive(x, n, rng) for x in s['dirs']]
                        if s['form'] == 'str' and ds and isinstance(ds[0][0], str):
                            sel[name], ds = ds[0][0], ds[:1]
                        else:
                            sel[name] = [x for x, _ in ds]
                        e['sel'].append([name, sum((y for _, y in ds), [])])
                if op['select'] == 'unknown':
                    sel['nothing'] = ['rms']
                    e['sel'].append(['nothing', []])
                kw['select'] = sel
            if gr.split is not None:
                kw['splitcoords'] = gr.split
            if sc['tol'] != 'default' or rng.random() < 0.2:
                kw['tol'] = gr.tol
            ok, r = outcome(vm.vtk_zconvolution, **kw)
        if ok:
            out = r.pyvista_grid
            c, npt, used = look(out)
            e['res'] = {'cells': c, 'npoint': npt, 'used': used, 'fields': statistics(out, n) if op['op'] == 'average' else []}
            if r.ncell != len(c) or r.nnode != npt:
                e['res']['npoint'] = -1
        else:
            e['exc'] = errtxt(r)
        e['same'] = whole(vm.pyvista_grid) == ref
        ev.append(e)
    trig = lambda f: [round(f(2 * math.pi * k / n) * 16384) for k in range(n)]
    return {'id': cid, 'cells': gr.cells, 'fields': [[f, [[int(x) for x in np.atleast_1d(r)] for r in v]] for f, v, _ in gr.fields], 'cos': trig(math.cos), 'sin': trig(math.sin), 'ev': ev}


def run(ctx):
    q = ctx.quick
    ctx.mc('ZAlg')
    ctx.mc('ZAlg', 'ZAlgJit')
    if not q:
        ctx.mc('ZAlg', 'ZAlgBig')
    scen = ctx.gen('GenZ', simulate=(800 if q else 9000, 3))
    wd = ctx.subdir('z')
    cases = pmap(case, [(f'z{i}', s, ctx.rng.randrange(1 << 30), wd) for i, s in enumerate(scen)])
    avg = [e for c in cases for e in c['ev'] if e['op'] == 'average']
    ctx.notes['averages'] = len(avg)
    ctx.notes['averages refused'] = sum(e['exc'] != '' for e in avg)
    ctx.validate('ZTrace', cases)
    big.judge(ctx, bigger.z_case, [(f'big{i}', d, ctx.rng.randrange(1 << 30)) for i, d in enumerate(big.sizes(ctx))])
