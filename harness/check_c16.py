"""C16: results do not depend on what the process did before; objects do not share what one of them changes."""
import hashlib
import json
import os
import pickle
import random
import signal

import numpy as np

import cgnsfmt
import gen
import ic3fmt
import life
import mshfmt
import proj
import v4fmt
from common import errtxt, fbits, outcome, pmap

ASSUMPTIONS = ['an operation that fails in a process of its own must fail alike in any other process']

# corners, edges, faces, centre: lattice points of a cell in 0..2, for the two conventions
COR = [(0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0), (0, 0, 2), (2, 0, 2), (2, 2, 2), (0, 2, 2)]
CG_E = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 5), (2, 6), (3, 7), (4, 5), (5, 6), (6, 7), (7, 4)]
CG_F = [(0, 1, 2, 3), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7), (4, 5, 6, 7)]
GM_E = [(0, 1), (0, 3), (0, 4), (1, 2), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 7), (5, 6), (6, 7)]
GM_F = [(0, 3, 2, 1), (0, 1, 5, 4), (0, 4, 7, 3), (1, 2, 6, 5), (2, 3, 7, 6), (4, 5, 6, 7)]


def hexa27(n, gmsh):
    """n cells in a row: coordinates and cells"""
    E, F = (GM_E, GM_F) if gmsh else (CG_E, CG_F)
    mid = lambda g: tuple(sum(COR[i][k] for i in g) // len(g) for k in range(3))
    pts = COR + [mid(g) for g in E] + [mid(g) for g in F] + [(1, 1, 1)]
    num, cells = {}, []
    for c in range(n):
        cells.append([num.setdefault((x + 2 * c, y, z), len(num)) for x, y, z in pts])
    return [tuple(v / 2 for v in p) for p in num], cells


# ---------------------------------------------------------------- inputs
def make_inputs(wd, seed):
    import pyvista as pv

    rng = random.Random(seed)
    f = {k: f'{wd}/{k}.{x}' for k, x in dict(g3='msh', g4='msh', g2='msh', c3='cgns', c4='cgns', i2='ic3', i3='ic3', v4='h5', vtu='vtu').items()}
    gm = gen.lattice_mesh((2, 2, 1), gen.random_kinds((2, 2, 1), rng), rng).shuffled(rng)
    text = lambda k, t: open(f[k], 'w').write(t)
    text('g3', mshfmt.simple(gm, [(n, w) for n, w in sorted(gen.plane_patches(gm).items())[:3]]))
    text('g4', mshfmt.v41([tuple(map(float, c)) for c in gm.coords], {(3, 1): 'fluid', (2, 2): 'wall'}, list(range(1, gm.nnode + 1)),
                          [(3, 1, False, list(range(gm.nnode)))], [(t, 1, [nd for k, nd in gm.cells if k == t]) for t in sorted({t for t, _ in gm.cells})],
                          {(3, 1): [1]}))
    g2 = gen.plane_mesh(2, 2, ['Q', 'T0', 'T1', 'Q'])
    text('g2', mshfmt.simple(g2, [(n, w) for n, w in sorted(gen.plane_patches(g2).items())]))
    gc = gen.lattice_mesh((2, 1, 1), ['H', 'Pz0'], rng).shuffled(rng)
    secs, first = [], 1
    for et in sorted({t for t, _ in gc.cells}):
        conn = [[n + 1 for n in nd] for t, nd in gc.cells if t == et]
        secs.append({'name': 'S' + et, 'type': et, 'first': first, 'conn': conn})
        first += len(conn)
    bcs = [{'name': n, 'kind': 'BCWall', 'family': n, 'loc': 'Vertex', 'how': 'list', 'index': sorted({v + 1 for w in ws for v in w})}
           for n, ws in sorted(gen.plane_patches(gc).items())[:4]]
    # conditions of the second file are given by faces
    pl, bsec, bbc = sorted(gen.plane_patches(gc).items()), [], []
    for n, ws in pl[:3]:
        for et, k in (('tri3', 3), ('quad4', 4)):
            conn = [[v + 1 for v in w] for w in ws if len(w) == k]
            if conn:
                bsec.append({'name': f'B{n}{et}', 'type': et, 'first': first, 'conn': conn})
                bbc.append({'name': f'{n}{k}', 'kind': 'BCWall', 'family': n, 'loc': 'FaceCenter', 'how': 'list', 'index': list(range(first, first + len(conn)))})
                first += len(conn)
    cgnsfmt.write(f['c4'], [{'name': 'Base', 'cell_dim': 3, 'zones': [{'name': 'zone', 'coords': [tuple(2. * v for v in c) for c in gc.coords], 'ncell': len(gc.cells),
                                                                    'sections': secs + bsec, 'bcs': bbc}]}])
    fs = [[v + 1 for v in w] for w in pl[-1][1] if len(w) == 4]
    secs = secs + [{'name': 'F', 'type': 'quad4', 'first': len(gc.cells) + 1, 'conn': fs}]
    bcs.append({'name': 'faces', 'kind': 'BCWall', 'family': 'faces', 'loc': 'FaceCenter', 'how': 'list', 'index': [len(gc.cells) + 1]})
    cgnsfmt.write(f['c3'], [{'name': 'Base', 'cell_dim': 3, 'zones': [{'name': 'zone', 'coords': [tuple(map(float, c)) for c in gc.coords], 'ncell': len(gc.cells),
                                                                    'sections': secs, 'bcs': bcs}]}])
    for k, ver in (('i2', 2), ('i3', 3), ('v4', 4)):
        m = life.fabricated({'no': 8, 'fa': 6, 'cv': 2, 'kinds': ['NO_D1', 'CV_D1', 'CV_D3'], 'ndof': 1}, rng)
        m['zones'] = [(n.replace(' ', ''), kd, a, b, p) for n, kd, a, b, p in m['zones']]
        m['wgt'] = [('U_AVG_WGT', 1.5)] if ver != 3 else []
        if ver == 4:
            m['cons'], m['stats'] = [('rho', [1., 2.]), ('rhou', list(range(6))), ('rhoe', [3., 4.])], [('u_avg', [5., 6.])]
            v4fmt.fabricate(f[k], f[k] + '.sol', m, rng)
        else:
            with open(f[k], 'wb') as o:
                o.write(ic3fmt.fabricate(ver, '<', m))
    g = pv.UnstructuredGrid(np.concatenate([np.array([len(n)] + list(n)) for _, n in gc.cells]),
                            np.array([{'hexa8': 12, 'prism6': 13}[t] for t, _ in gc.cells], dtype=np.uint8), np.array(gc.coords, dtype=float))
    g.save(f['vtu'])
    return f


# ---------------------------------------------------------------- one process
class Host:
    """a process with its objects"""

    def __init__(self, inputs, wd):
        self.inputs, self.wd, self.n = inputs, wd, 0
        self.params = {'cfl': 0.5, 'step': 3}

    def name(self, ext):
        self.n += 1
        d = f'{self.wd}/{self.n}'
        os.mkdir(d)
        return f'{d}/f{ext}'

    def reader(self, f):
        """f: (kind, path)"""
        kind, path = f
        if kind == 'msh':
            import cfdtools.gmsh as gmsh

            r = gmsh.reader(path)
        elif kind == 'cgns':
            import cfdtools.cgns as cgns

            r = cgns.cgnsMesh(path)
        elif kind == 'ic3':
            import cfdtools.ic3.reader_legacy as rl

            r = rl.reader(path)
        elif kind == 'h5':
            import cfdtools.ic3.readerV4 as r4

            sol = path + '.sol'
            r = r4.reader(path, sol) if os.path.exists(sol) else r4.reader(path)
        else:
            import cfdtools.vtk as vtk

            return vtk.vtkMesh().read(path)
        r.read_data()
        return r

    # operations: (object, argument) -> new object or None
    def open(self, o, a):
        p = self.inputs[a]
        return self.reader((p.rsplit('.', 1)[1], p))

    def openf(self, o, a):
        return self.reader(o)

    def cube(self, o, a):
        from cfdtools.meshbase.simple import Cube

        return Cube(int(a), 2, 1).export_mesh()

    def user(self, o, a):
        import cfdtools.meshbase._connectivity as conn
        import cfdtools.meshbase._mesh as _mesh

        if a == 'mix':
            rng = random.Random(5)
            gm = gen.lattice_mesh((2, 1, 1), ['H', 'C'], rng)
            m, _ = proj.build_mesh(gm)
            nd, cd, ndof = life.make_fields('few', gm.nnode, gm.ncell, rng)
            life.set_fields(m, nd, cd, ndof)
            m.set_params(self.params)
            return m
        xyz, cells = hexa27(2, False)
        m = _mesh.Mesh(ncell=2, nnode=len(xyz))
        m.set_nodescoord_nd(np.array(xyz))
        c = conn.elem_connectivity()
        c.add_elems('hexa27', np.array(cells))
        m.set_cell2node(c)
        return m

    def cli(self, cmd, f, ext):
        import cfdtools._cli as cli

        out = os.path.dirname(self.name(''))
        r = getattr(cli, cmd)([self.inputs[f], '--outpath', out + '/'])
        return (ext, r)

    def cli2(self, o, a):
        return self.cli('cfdwrite_ic3v2', a, 'ic3')

    def cli3(self, o, a):
        return self.cli('cfdwrite_ic3v3', a, 'ic3')

    def clivtk(self, o, a):
        return self.cli('cfdwrite_vtk', a, 'vtu')

    def export(self, o, a):
        return o.export_mesh()

    def write(self, o, a):
        import cfdtools.ic3.writerV4 as w4

        if a == '4':
            f = self.name('.h5')
            w4.writer(o).write_data(f, f + '.sol')
            return ('h5', f)
        f = self.name('.ic3')
        life.writer_of(int(a))(o).write_data(f)
        return ('ic3', f)

    def again(self, o, a):
        """written to the same file as before, and opened"""
        f = f'{self.wd}/same.' + {'3': 'ic3', '4': 'h5', 'v': 'vtu'}[a]
        if a == 'v':
            import cfdtools.vtk as vtk

            vtk.vtkMesh(o).write_data(f)
            return vtk.vtkMesh().read(f)
        if a == '4':
            import cfdtools.ic3.writerV4 as w4

            w4.writer(o).write_data(f, f + '.sol')
        else:
            life.writer_of(3)(o).write_data(f)
        return self.reader((f.rsplit('.', 1)[1], f))

    def vtk(self, o, a):
        import cfdtools.vtk as vtk

        return vtk.vtkMesh(o)

    def extrude(self, o, a):
        return o.export_extruded(extrude=[0.0, 0.5, 2.0])

    def derive(self, o, a):
        o.make_face_connectivity()

    def prep(self, o, a):
        life.writer_of(3)(o)

    def reread(self, o, a):
        if hasattr(o, 'read_data'):
            o.read_data()

    def unmark(self, o, a):
        if o._bocos:
            o.remove_boco(sorted(o._bocos)[0])

    def retype(self, o, a):
        for k in o._bocos:
            b = o.seekmark(k)
            if b.type != 'internal':
                b.type = 'perio_cart'
                b.properties['periodic_transform'] = np.array([1.0, 2.0, 3.0])

    def param(self, o, a):
        o.update_params({'time': 7.5, 'rho_wgt': 2.5})

    def pop(self, o, a):
        for k in sorted(o._nodedata.keys())[:1]:
            o.pop_nodedata(k)

    def popcell(self, o, a):
        for k in sorted(o._celldata.keys())[:1]:
            o.pop_celldata(k)

    def part(self, o, a):
        o.set_partition({'npart': 2, 'icvpart': np.arange(o.ncell, dtype=np.int32) % 2})

    def scale(self, o, a):
        o.scale([2.0, 4.0, 0.5])

    def move(self, o, a):
        o.pyvista_grid.points[:] += np.array([1.0, 2.0, 3.0])

    # ---- values
    def value(self, o):
        if isinstance(o, str):
            return o
        if isinstance(o, tuple):
            kind, path = o
            if kind == 'h5':
                d = v4fmt.parse(path, path + '.sol')
            elif kind == 'vtu':
                import pyvista as pv

                d = self.grid(pv.read(path))
            else:
                with open(path, 'rb') as f:
                    d = hashlib.sha1(f.read()).hexdigest()
            return d
        if hasattr(o, 'make_face_connectivity'):
            return [proj.p_mesh(o), {k: repr(v) for k, v in o._params.items() if np.isscalar(v)}]
        if hasattr(o, 'pyvista_grid'):
            return self.grid(o.pyvista_grid)
        return 'reader'  # seen through its meshes

    def grid(self, g):
        return [[fbits(v) for v in np.asarray(g.points, dtype=float).ravel()], [[int(t)] + [int(n) for n in g.get_cell(i).point_ids] for i, t in enumerate(g.celltypes)],
                sorted([k] + proj.p_arr(v) for k, v in g.cell_data.items()), sorted([k] + proj.p_arr(v) for k, v in g.point_data.items())]

    def token(self, o):
        if isinstance(o, str):
            return o
        ok, v = outcome(self.value, o)
        if not ok:
            return 'value: ' + errtxt(v)
        if os.environ.get('VERIF_DEBUG'):
            return json.dumps(v)[:20000]
        return hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:16]

    def apply(self, op, o, a):
        """(object or 'failed: ..', failure of a change)"""
        if isinstance(o, str):
            return 'failed'
        ok, r = outcome(getattr(self, op), o, a)
        return r if ok else 'failed: ' + errtxt(r).split(self.wd)[0][:60]


CHANGES = {'derive', 'prep', 'reread', 'unmark', 'retype', 'param', 'pop', 'popcell', 'part', 'scale', 'move'}


def failed(now, o, op, r):
    """failures of an object with that of op added, once"""
    t = f'|{op} {r}'
    return now if isinstance(o, str) or t in now else now + t


def alone(f, arg, limit=120):
    """f(arg) in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(limit)
            with os.fdopen(w, 'wb') as o:
                pickle.dump(f(arg), o)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as i:
        b = i.read()
    os.waitpid(pid, 0)
    return pickle.loads(b) if b else 'process ended'


def _history(arg):
    ops, inputs, wd = arg
    h = Host(inputs, wd)
    objs, fails, ev = [], [], []
    for e in ops:
        o = objs[e['x'] - 1] if e['x'] else None
        r = h.apply(e['op'], o, e['a'])
        if e['op'] in CHANGES:
            if isinstance(r, str):
                fails[e['x'] - 1] = failed(fails[e['x'] - 1], o, e['op'], r)
        else:
            objs.append(r)
            fails.append('')
        ev.append({'op': e['op'], 'x': e['x'], 'a': e['a'], 'obs': [h.token(v) + f for v, f in zip(objs, fails)]})
    return ev


def _term(arg):
    """value of a term: its operations, one after the other, in a fresh process"""
    term, inputs, wd = arg
    h = Host(inputs, wd)
    o, fail = None, ''
    segs = term.split('/')
    for k, seg in enumerate(segs):
        op, _, a = seg.partition(':')
        r = h.apply(op, o, a)
        if op in CHANGES:
            if isinstance(r, str):
                fail = failed(fail, o, op, r)
        else:
            o, fail = r, ''
    return h.token(o) + fail


def run_term(job):
    term, inputs, wd = job
    os.mkdir(wd)
    return alone(_term, job)


def run_history(job):
    cid, ops, inputs, wd = job
    os.mkdir(wd)
    return cid, alone(_history, (ops, inputs, wd))


def run(ctx):
    q = ctx.quick
    ctx.mc('HistHeap' if q else 'HistHeapBig')
    # what is not the package is loaded once, before the processes of the terms and histories
    import h5py, matplotlib.pyplot, pyvista, scipy.spatial, scipy.special  # noqa: F401,E401
    inputs = alone(lambda a: make_inputs(*a), (ctx.subdir('inputs'), ctx.rng.randrange(1 << 30)))
    assert isinstance(inputs, dict), 'inputs not written'
    plans = ctx.gen('GenHist', simulate=(400 if q else 4000, 30))
    plans = [p for i, p in enumerate(plans)]
    ctx.rng.shuffle(plans)
    plans = plans[: 420 if q else 4000]
    terms = sorted({t for p in plans for e in p for t in e['terms']})
    wd = ctx.subdir('terms')
    ref = dict(zip(terms, pmap(run_term, [(t, inputs, f'{wd}/{i}') for i, t in enumerate(terms)], safe=False)))
    ctx.log(f'{len(terms)} terms computed in processes of their own, {sum("failed" in v for v in ref.values())} fail')
    if os.environ.get('VERIF_DEBUG'):
        for t, v in ref.items():
            if 'failed' in v:
                print('TERM', t, v[-90:] if 'failed' in v[-90:] else v[v.index('failed'):][:90])
    wd = ctx.subdir('hist')
    cases = []
    for (cid, ev), p in zip(pmap(run_history, [(f'h{i}', p, inputs, f'{wd}/{i}') for i, p in enumerate(plans)], safe=False), plans):
        if isinstance(ev, str):
            ev = [{'op': p[-1]['op'], 'x': 0, 'a': '', 'obs': []}]
        cases.append({'id': cid, 'ev': ev, 'ref': [[t, ref[t]] for t in sorted({t for e in p for t in e['terms']})]})
    ctx.validate('HistTrace', cases)
