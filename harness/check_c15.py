"""C15: version 4 files keep mesh, marks and solution; chains of conversions between versions 2, 3 and 4."""
import random
from pathlib import Path

import numpy as np

import big
import gen
import ic3fmt
import life
import proj
import v4fmt
from common import errtxt, outcome, pmap

ASSUMPTIONS = ['boundary faces come before internal faces in a mesh read from a file', 'no mark is called as a dataset of the Boundaries group',
               'names of statistics differ also without case']


def fields(kind, n, rng):
    """cell fields of a scenario"""
    v = life.values
    cons = {'RHO': v((n,), rng), 'RHOU': v((n, 3), rng), 'RHOE': v((n,), rng)}
    stats = {'P_AVG': v((n,), rng), 'U_AVG': v((n, 3), rng), 'RHO_RMS': v((n,), rng), 'U_REY': v((n, 3), rng), 'TAU_AVG': v((n, 3, 3), rng)}
    few = dict(rng.sample(sorted(stats.items()), rng.randrange(1, 4)))
    d = {}
    if kind == 'cons':
        d = {**cons, 'MU': v((n,), rng)}
    elif kind == 'stats':
        d = {**few, 'T': v((n,), rng)}
    elif kind == 'both':
        d = {**cons, **few, 'MU': v((n, 3), rng)}
    elif kind == 'partial':
        d = dict(rng.sample(sorted(cons.items()), 2), **few)
    elif kind == 'ints':
        d = {**cons, 'RHO': np.array([rng.randrange(-9, 99) for _ in range(n)], dtype=np.int64), 'IREF': np.arange(n), 'N_AVG': np.arange(n) * 3}
    elif kind == 'odd':
        d = {'rho': v((n,), rng), 'u_AVG': v((n, 3), rng), 'E_REYs': v((n,), rng), 'x_avg': v((n,), rng), 'RHO': v((n,), rng), '_RMS': v((n,), rng)}
    elif kind == 'wide':
        d = {**cons, 'R_REY': v((n, 6), rng), 'PAIR_AVG': v((n, 2), rng), **few}
    elif kind == 'special':
        d = {'RHO': v((n,), rng, True), 'RHOU': v((n, 3), rng, True), 'RHOE': v((n,), rng, True), 'W_RMS': v((n, 3), rng, True)}
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


class Life:
    """one mesh, its last writer, its last files"""

    def __init__(self, cid, seed, wd):
        self.id, self.rng, self.wd = cid, random.Random(seed), wd
        self.ev, self.nf = [], 0
        self.mesh = self.writer = self.ver = self.mk = None
        self.files = {}

    def end(self, e):
        return life.finish(e, self.mesh, self.ev)

    def start(self, op):
        rng = self.rng
        gm = life.make_gm(op['mesh'], rng)
        self.mesh, _ = proj.build_mesh(gm, rng, rng.choice(['default', 'split', 'explicit']), life.make_coords(gm, rng))
        self.give_(op)
        if rng.random() < 0.3:
            import cfdtools.data as data

            nd = data.DataSet('nodal')
            nd.add_data('PHI_AVG', life.values((gm.nnode,), rng))
            self.mesh.set_nodedata(nd)
        if op['part'] == 'part':
            self.mesh.set_partition({'npart': 3, 'icvpart': np.array([rng.randrange(3) for _ in range(gm.ncell)], dtype=np.int32)})
        self.mk = life.Marker(gm, rng)
        return self.end({'op': 'start', 'exc': ''})

    def give_(self, op):
        import cfdtools.data as data

        ds = data.DataSet('cellaverage')
        for k, v in fields(op['fields'], self.mesh.ncell, self.rng).items():
            ds.add_data(k, v)
        self.mesh.set_celldata(ds)
        self.mesh.set_params(life.make_state(op['state'], self.rng))

    def give(self, op):
        self.give_(op)
        return self.end({'op': 'start', 'exc': ''})

    def mark(self, op):
        e = {'op': 'start', 'exc': ''}
        ok, r = outcome(life.add_mark, self.mesh, self.mk, op, self.rng)
        if ok and not r:
            return True
        e['exc'] = '' if ok else errtxt(r)
        return self.end(e)

    def derive(self, op):
        e = {'op': 'derive', 'exc': ''}
        ok, r = outcome(self.mesh.make_face_connectivity)
        e['exc'] = '' if ok else errtxt(r)
        return self.end(e)

    def write(self, op, again=False):
        import cfdtools.ic3.writerV4 as w4

        if not again:
            ver = op['ver']
            e = {'op': 'prepare', 'exc': ''}
            cls = w4.writer if ver == 4 else life.writer_of(ver)
            ok, self.writer = outcome(cls, self.mesh, endian=op['endian']) if ver != 4 or self.rng.random() < 0.5 else outcome(cls, self.mesh)
            e['exc'] = '' if ok else errtxt(self.writer)
            if not self.end(e):
                return False
            self.ver, self.endian = ver, op['endian']
        key = 4 if self.ver == 4 else 2
        if op['where'] == 'new' or key not in self.files:
            self.nf += 1
            self.files[key] = f'{self.wd}/{self.id}-{self.nf}.{"h5" if key == 4 else "ic3"}'
        f = self.files[key]
        if self.ver == 4:
            sol = f[:-3] + '_solution.h5' if op['sol'] else None
            e = {'op': 'write4', 'exc': '', 'sol': op['sol'], 'file': v4fmt.EMPTY, 'names': v4fmt.names(proj.p_fields(self.mesh._celldata))}
            ok, r = outcome(self.writer.write_data, f, sol) if sol or self.rng.random() < 0.5 else outcome(self.writer.write_data, f)
            if ok:
                e['file'] = v4fmt.parse(f, sol)
            self.last = (f, sol)
        else:
            e = {'op': 'write', 'ver': self.ver, 'endian': self.endian, 'exc': '', 'file': ic3fmt.parse(b'')}
            ok, r = outcome(self.writer.write_data, f)
            if ok:
                e['file'] = ic3fmt.parse(Path(f).read_bytes())
            self.last = (f, None)
        e['exc'] = '' if ok else errtxt(r)
        return self.end(e)

    def again(self, op):
        return self.write(op, True)

    def read(self, op):
        f, sol = self.last
        if self.ver != 4:
            import cfdtools.ic3.reader_legacy as rl

            e = {'op': 'read', 'exc': '', 'src': len(self.ev)}
            mk = lambda: rl.reader(f)
        else:
            import cfdtools.ic3.readerV4 as r4

            e = {'op': 'read4', 'exc': ''}
            if op['what'] == 'mesh' and sol:
                sol = None
                e['file'] = v4fmt.parse(f)
            else:
                e['src'] = len(self.ev)
            p = Path if op['path'] == 'Path' else str
            mk = lambda: r4.reader(p(f), p(sol)) if sol else r4.reader(p(f))
        self.mesh, e['exc'] = load(mk)
        return self.end(e)

    def run(self, plan):
        for op in plan:
            if not getattr(self, op['op'])(op):
                break
        return {'id': self.id, 'ev': self.ev}


def load(make):
    def read():
        r = make()
        r.read_data()
        return r.export_mesh()

    ok, r = outcome(read)
    return (r, '') if ok else (None, errtxt(r))


def run_life(job):
    cid, plan, seed, wd = job
    return Life(cid, seed, wd).run(plan)


def rewrite(L, vers):
    for ver in vers:
        if not L.write({'ver': ver, 'endian': L.rng.choice(['native', 'big']), 'where': 'new', 'sol': True}) or not L.read({'what': 'both', 'path': 'str'}):
            break


def with_empty(m, rng):
    """marks without face, anywhere among the others"""
    zones = [z for z in m['zones'] if z[1] != 6]
    for k in range(rng.choice([0, 0, 1, 2])):
        a = rng.choice([z[2] for z in zones] + [max(z[3] for z in zones) + 1])
        zones.insert(rng.randrange(len(zones) + 1), (f'empty {k}', rng.choice([1, 2]), a, a - 1, [0.5, 0., -1.] if rng.random() < 0.3 else []))
    m['zones'] = zones + [z for z in m['zones'] if z[1] == 6]


def fab_case(job):
    """files made elsewhere are read, written to another version and read again"""
    cid, sc, seed, wd = job
    L = Life(cid, seed, wd)
    rng = L.rng
    m = life.fabricated({**sc, 'kinds': [], 'ndof': 1}, rng)
    n, v = sc['cv'], lambda k: [rng.uniform(-5, 5) for _ in range(k)]
    with_empty(m, rng)
    if rng.random() < 0.4:  # the same in a file of version 2 or 3
        import cfdtools.ic3.reader_legacy as rl

        m['fields'] = []
        b = ic3fmt.fabricate(rng.choice([2, 3]), rng.choice('<>'), m)
        f = f'{wd}/{cid}.ic3'
        Path(f).write_bytes(b)
        L.mesh, exc = load(lambda: rl.reader(f))
        if L.end({'op': 'read', 'exc': exc, 'file': ic3fmt.parse(b)}):
            rewrite(L, [4, sc['rw']])
        return {'id': cid, 'ev': L.ev}
    sol = rng.random() < 0.8
    m['cons'] = [(k, v(n * c)) for k, c in (('rho', 1), ('rhou', 3), ('rhoe', 1)) if rng.random() < 0.85]
    m['stats'] = [(k, v(n * c)) for k, c in (('p_avg', 1), ('u_avg', 3), ('u_rey', 9), ('u_rms', 3)) if rng.random() < 0.5] if rng.random() < 0.8 else None
    f = f'{wd}/{cid}.h5'
    s = f'{wd}/{cid}_s.h5' if sol else None
    if rng.random() < 0.3:
        f, s = s or f, f  # names do not tell which file is which
        s = s if sol else None
    v4fmt.fabricate(f, s, m, rng)
    import cfdtools.ic3.readerV4 as r4

    L.mesh, exc = load(lambda: r4.reader(f, s) if s else r4.reader(f))
    L.last, L.ver = (f, s), 4
    if L.end({'op': 'read4', 'exc': exc, 'file': v4fmt.parse(f, s)}):
        rewrite(L, [sc['rw'], 4])
    return {'id': cid, 'ev': L.ev}


def run(ctx):
    q = ctx.quick
    ctx.mc('V4Chain' if q else 'V4ChainBig')
    wd = ctx.subdir('files')
    plans = life.longest(ctx.gen('GenV4', simulate=(260 if q else 3000, 16)))
    cases = pmap(run_life, [(f'v{i}', p, ctx.rng.randrange(1 << 30), wd) for i, p in enumerate(plans)])
    scen = ctx.gen('GenIc3', workers=4)
    jobs = [(f'f{i}', ctx.rng.choice(scen), ctx.rng.randrange(1 << 30), wd) for i in range(120 if q else 1500)]
    cases += pmap(fab_case, jobs)
    ctx.validate('MeshTrace', cases)
    big.judge(ctx, big.file_case, [(f'big{i}', d, ctx.rng.randrange(1 << 30), wd, 4) for i, d in enumerate(big.sizes(ctx))])
