"""C25: what a reader holds of a file is what the file contained when it was read last."""
import contextlib
import io
import os
import random
import re
import shutil
from pathlib import Path

import numpy as np

import gen
import ic3fmt
import life
import proj
import v4fmt
from check_c12 import VTK
from check_c24 import World
from common import errtxt, fbits, outcome, pmap

ASSUMPTIONS = ['a file is replaced between two readings, never while one is going on',
               'names of data are unique in each place of a file']
EXT = {'v2': '.ic3', 'v3': '.ic3', 'v4': '.h5', 'msh22': '.msh', 'msh41': '.msh', 'cgns': '.cgns', 'vtu': '.vtu'}
NUM = ('no_count', 'fa_count', 'cv_count', 'noofa_count', 'nboco', 'nfa_b', 'nfa_bp')
RESTART = ('v2', 'v3', 'v4')


def bits(pts):
    return [[fbits(float(c)) for c in p] for p in pts]


def fields(ds):
    return [[n, [fbits(float(x)) for x in np.ravel(v)]] for n, v in ds.items()]


def faces(m):
    t = proj.p_table(m, 'mixed')
    assert [f[0] for f in t['f']] == list(range(len(t['f']))), 'face numbers'
    return [[f[2], int(c[0]), int(c[1])] for f, c in zip(t['f'], t['c'])]


def put_restart(path, sc, rng, sol):
    """writes a restart file made by hand; what it contains"""
    ver = int(sc['fmt'][1])
    nd = sc['ndof'] if ver == 3 else 1
    kinds = sorted(set(sc['kinds']))
    m = life.fabricated({'no': sc['no'], 'fa': sc['fa'], 'cv': sc['cv'], 'kinds': kinds if ver < 4 else [], 'ndof': nd}, rng)
    other = {'plain': lambda: -1, 'periodic': lambda: -rng.randint(2, 7), 'mixed': lambda: rng.choice([-1, -2, -5]), 'closed': lambda: rng.randrange(sc['cv'])}[sc['other']]
    m['faces'] = [(f, (c[0], other() if c[1] == -1 else c[1])) for f, c in m['faces']]
    F = {'kind': 'restart', 'xyz': bits(m['xyz']), 'no': sc['no'], 'cv': sc['cv'], 'faces': [[list(f), c[0], c[1]] for f, c in m['faces']], 'zones': [[z[0], z[2], z[3]] for z in m['zones']],
         'ff': [], 'part': [m['part'][0], list(m['part'][1])], 'step': str(m['step']), 'cd': [], 'nd': [], 'wgt': [n.lower() for n, _ in m['wgt']]}
    if ver < 4:
        for i, k in enumerate(sc['ff']):
            w = 3 if k.endswith('D3') else 1
            v = [rng.uniform(-5, 5) for _ in range(w * sc['fa'])]
            same = [f[1] for f in m['fields'] if f[0].startswith('CV')]
            n = same[0] if sc['twin'] and i == 0 and same else f'flux {i}'
            m['fields'].insert(rng.randrange(len(m['fields']) + 1), (k, n, 1, v))
            F['ff'].append([n, w, [fbits(x) for x in v]])
        F['cd'], F['nd'] = ([[f[1], [fbits(x) for x in f[3]]] for f in m['fields'] if f[0].startswith(k)] for k in ('CV', 'NO'))
        b = ic3fmt.fabricate(ver, rng.choice('<>'), m)
        if sc['perm'] != 'none':
            b = life.permute(b, sc['perm'], rng)
        Path(path).write_bytes(b)
        return F
    F['part'] = []
    m['cons'], m['stats'] = [], None
    for k, w in (('rho', 1), ('rhou', 3), ('rhoe', 1)):
        if sol and rng.random() < 0.6:
            m['cons'].append((k, [rng.uniform(-5, 5) for _ in range(w * sc['cv'])]))
    if sol and sc['stats']:
        m['stats'] = [(k, [rng.uniform(-5, 5) for _ in range(w * sc['cv'])]) for k, w in (('p_avg', 1), ('u_rms', 3), ('u_rey', 9)) if rng.random() < 0.6]
    F['cd'] = [[k.upper(), [fbits(x) for x in v]] for k, v in m['cons'] + (m['stats'] or [])]
    if not sol:
        F['step'] = '0'
    if not m['stats']:
        m['stats'], F['wgt'] = None, []
    v4fmt.fabricate(path, path + '_s' if sol else None, m, rng)
    return F


def put_cells(path, sc, rng):
    """writes a mesh of another format; what it contains"""
    plane = sc['mesh'] == 'plane'
    if sc['fmt'] == 'vtu':
        import pyvista as pv

        if plane:
            d = rng.choice([(1, 1), (2, 1), (3, 2)])
            gm = gen.plane_mesh(d[0], d[1], [rng.choice(['Q', 'T0', 'T1']) for _ in range(d[0] * d[1])]).shuffled(rng)
        else:
            gm = life.make_gm(rng.choice(['tetra1', 'hexa', 'small', 'mixed']), rng)
        flat = [x for _, nd in gm.cells for x in [len(nd)] + list(nd)]
        pv.UnstructuredGrid(np.array(flat), np.array([VTK[t] for t, _ in gm.cells]), np.array(gm.coords, dtype=float)).save(path)
        return {'kind': 'cells', 'no': gm.nnode, 'elems': [gm.dim] * gm.ncell, 'xyz': bits(gm.coords)}
    w = World.__new__(World)
    w.sc, w.rng = {'npatch': sc['npatch'], 'cover': 'some'}, rng
    src = {'msh22': 'msh22', 'msh41': 'msh41', 'cgns': 'cgns'}[sc['fmt']]
    f, = w.cells(('plane' + src.replace('msh', '')) if plane else src, path, False)
    dim = 2 if plane else 3
    return {'kind': 'cells', 'no': len(f['pts']), 'elems': [dim] * f['ncell'] + [dim - 1] * len(f['marks']), 'xyz': bits([[c / 8 for c in p] for p in f['pts']])}


def weights(state):
    return [n for n in state if n.endswith('_wgt')]


class Shelf:
    """files, readers and meshes of a process"""

    def __init__(self, wd, cid, sc, rng):
        self.root, self.sc, self.rng = os.path.join(wd, cid), sc, rng
        os.makedirs(self.root)
        self.files, self.cur, self.readers, self.meshes = [], [], [], []
        self.sol = [rng.random() < 0.8 for _ in sc['fmt']]
        for p, _ in enumerate(sc['fmt']):
            self.put(p, sc['files'][p])

    def path(self, p):
        return os.path.join(self.root, f'f{p}{EXT[self.sc["fmt"][p]]}')

    def put(self, p, c):
        for f in (self.path(p), self.path(p) + '_s'):
            if os.path.exists(f):
                os.remove(f)
        self.files.append(put_restart(self.path(p), c, self.rng, self.sol[p]) if c['fmt'] in RESTART else put_cells(self.path(p), c, self.rng))

    # operations
    def open(self, e):
        p = e['x'] - 1
        k, f = self.sc['fmt'][p], self.path(p)
        if k in ('v2', 'v3'):
            import cfdtools.ic3.reader_legacy as rl

            r = rl.reader(f, cIntegrity=self.rng.random() < 0.3)
        elif k == 'v4':
            import cfdtools.ic3.readerV4 as r4

            r = r4.reader(f, f + '_s') if self.sol[p] else r4.reader(f)
        elif k == 'cgns':
            import cfdtools.cgns as cgns

            r = cgns.cgnsMesh(f, cIntegrity=self.rng.random() < 0.3)
        elif k == 'vtu':
            import cfdtools.vtk as vtk

            r = vtk.vtkMesh()
        else:
            import cfdtools.gmsh as gmsh

            r = gmsh.reader(f, cIntegrity=self.rng.random() < 0.3)
        self.readers.append([k, f, r, False])

    def read(self, e):
        x = self.readers[e['x'] - 1]
        x[2].read(x[1]) if x[0] == 'vtu' else x[2].read_data()
        x[3] = True

    def export(self, e):
        x = self.readers[e['x'] - 1]
        self.meshes.append((x[0], x[2].export_mesh()))

    def rewrite(self, e):
        self.put(e['x'] - 1, self.sc['files'][e['f'] - 1])

    def params(self, e):
        self.meshes[e['x'] - 1][1].update_params({'nfa_b': 77, 'nboco': 77})

    def pop(self, e):
        k, m = self.meshes[e['x'] - 1]
        if k in RESTART:
            for n in list(m._celldata.keys()):
                m.pop_celldata(n)

    def scale(self, e):
        self.meshes[e['x'] - 1][1].scale((2., 1., .5))

    # observation
    def look(self):
        return [self.reader(*x) for x in self.readers], [self.mesh(*x) for x in self.meshes]

    @staticmethod
    def reader(k, f, r, done):
        if not done:
            return {'ncell': -1}
        if k not in RESTART:
            return {'ncell': int(r.ncell), 'nnode': int(r.nnode) if k == 'vtu' else -1}
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            r.printinfo()
        said = {n: int(v) for n, v in re.findall(r'mesh\.params\.(\w+)\s*:\s*(-?\d+)\s*$', out.getvalue(), re.M)}
        P = r.mesh['partition']
        return {'ncell': int(r.ncell), 'num': {n: int(r.mesh['params'].get(n, -1)) for n in NUM}, 'said': {n: said.get(n, -1) for n in NUM},
                'slices': [[b.name, [int(v) for v in b.properties['slicing']]] for b in r.mesh['bocos']],
                'ff': [[n, 3 if np.ndim(v) == 2 and np.shape(v)[1] == 3 else 1 if np.ndim(v) == 1 else -1, [fbits(t) for t in np.ravel(v)]] for n, v in r.variables['faces'].items()],
                'part': [] if P is None else [int(P['npart']), [int(v) for v in P['icvpart']]], 'step': str(int(r.simulation_state['step'])),
                'cd': fields(r.celldata), 'nd': fields(r.nodedata), 'wgt': weights(r.simulation_state)}

    @staticmethod
    def mesh(k, m):
        res = {'ncell': int(m.ncell), 'nnode': int(m.nnode), 'xyz': proj.p_coords(m)}
        if k in RESTART:
            res.update(num={n: int(m._params.get(n, -1)) for n in NUM}, cd=fields(m._celldata), nd=fields(m._nodedata), faces=faces(m), wgt=weights(m._params), step=str(int(m._params['step'])))
        return res


def case(job):
    cid, sc, seed, wd = job
    s = Shelf(wd, cid, sc, random.Random(seed))
    ev = []
    try:
        for op in sc['plan']:
            if op['op'] == 'rewrite':
                s.rewrite(op)  # nothing of the code under test
                ok = True
            else:
                ok, r = outcome(getattr(s, op['op']), op)
            e = {'op': op['op'], 'x': op['x'], 'f': op.get('f', 0), 'exc': '' if ok else errtxt(r), 'rs': [], 'ms': []}
            if ok:
                ok, r = outcome(s.look)
                if ok:
                    e['rs'], e['ms'] = r
                else:
                    e['exc'] = 'look: ' + errtxt(r)
            ev.append(e)
            if not ok:
                break
    finally:
        shutil.rmtree(s.root)
    return {'id': cid, 'cur': list(range(1, len(sc['fmt']) + 1)), 'files': s.files, 'ev': ev}


def run(ctx):
    q = ctx.quick
    ctx.mc('HoldBox', None if q else 'HoldBoxBig')
    plans = ctx.gen('GenHold', simulate=(1000 if q else 12000, 20))
    wd = ctx.subdir('hold')
    cases = pmap(case, [(f'h{i}', s, ctx.rng.randrange(1 << 30), wd) for i, s in enumerate(plans)])
    ctx.notes['observations of readers'] = sum(len(e['rs']) for c in cases for e in c['ev'])
    ctx.notes['observations of meshes'] = sum(len(e['ms']) for c in cases for e in c['ev'])
    ctx.validate('HoldTrace', cases)
