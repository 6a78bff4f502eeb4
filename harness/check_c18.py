"""C18: probe variables are read, or computed from their true dependencies."""
import contextlib
import hashlib
import io
import itertools
import os
import random
import shutil

import numpy as np

import big
import bigger
from common import errtxt, outcome, pmap

ASSUMPTIONS = ['all files of one set have the same number of points; a coordinate file repeats the same line',
               'origins of values are told by comparing with the formulas of ideal gas (gamma 1.4) evaluated on the contents written, within rounding',
               'frequency maps are only checked for their axis and file']
BASE = ['X', 'Y', 'P', 'RHO', 'U-X', 'U-Y', 'U-Z', 'T']
DEPS = {'Asound': ['P', 'RHO'], 'S': ['P', 'RHO'], 'Mach': ['U', 'Asound'], 'U': ['U-X', 'U-Y', 'U-Z'], 'INVX+': ['U-X', 'Asound'], 'INVX-': ['U-X', 'Asound']}
FORM = {'Asound': lambda p, r: np.sqrt(1.4 * p / r), 'S': lambda p, r: np.log(p / r ** 1.4) / 0.4, 'Mach': lambda u, a: u / a,
        'U': lambda x, y, z: np.sqrt(x * x + y * y + z * z), 'INVX+': lambda u, a: 5 * a + u, 'INVX-': lambda u, a: 5 * a - u}


class Probe:
    def __init__(self, sc, rng, wd):
        self.sc, self.rng = sc, rng
        self.nr = np.random.RandomState(rng.randrange(1 << 31))
        self.prefix = {'plain': 'probe', 'dots': 'pr.b.1', 'folder': os.path.join('sub', 'pr')}[sc['prefix']]
        self.prefix = os.path.join(wd, self.prefix)
        os.makedirs(os.path.dirname(self.prefix), exist_ok=True)
        self.np = {'one point': 1}.get(sc['shape'], rng.choice([2, 3, 7]))
        self.nt = {'one time': 1}.get(sc['shape'], rng.choice([2, 3, 6]))
        if any(o['op'] == 'map' and o['kind'] == 'freq' for o in sc['ops']) and self.nt > 1 and self.np > 1:
            self.nt = 801
        self.old = {}  # variable -> contents by version
        self.times = {}
        self.files = {}

    def put(self, v):
        coord = v in ('X', 'Y', 'Z')
        nt = self.nt if not coord or self.sc['coord'] == 'lines' else 1
        if coord:
            a = np.tile(np.sort(self.nr.standard_normal(self.np)), (nt, 1))
        else:
            a = self.nr.standard_normal((nt, self.np))
            if v in ('P', 'RHO', 'Asound'):
                a = 0.5 + np.abs(a)
        t = np.cumsum(0.1 + self.nr.random_sample(nt)) if not (v == 'time') else np.arange(nt) * 1.0
        with open(self.prefix + '.' + v, 'w') as f:
            for k in range(nt):
                f.write(' '.join([str(k * 10), repr(float(t[k])), str(self.np)] + [repr(float(x)) for x in a[k]]) + '\n')
        kept = a[0] if coord or nt == 1 else a
        self.old.setdefault(v, []).append(kept)
        if nt > 1 and not coord:
            self.times.setdefault(v, {})[len(self.old[v])] = t
        self.files[v] = len(self.old[v])
        return len(self.old[v])

    def remove(self, v):
        os.remove(self.prefix + '.' + v)
        del self.files[v]

    def all_terms(self, v):
        """every value the variable could have: term, array"""
        r = [(f'{v}@{k + 1}', a) for k, a in enumerate(self.old.get(v, []))]
        if v in DEPS:
            for combo in itertools.product(*[self.all_terms(w) for w in DEPS[v]]):
                with np.errstate(all='ignore'):
                    r.append((f'{v}({",".join(t for t, _ in combo)})', FORM[v](*[a for _, a in combo])))
        return r

    def terms(self, v, val, merged=False):
        """terms whose values these are; merged: the axis of a map, mean of the lines of a variable of time"""
        val = np.asarray(val)
        every = [(t, a.mean(axis=0) if merged and a.ndim > 1 else a) for t, a in self.all_terms(v)]
        return [t for t, a in every if a.shape == val.shape and np.allclose(a, val, rtol=1e-11, atol=1e-13, equal_nan=True)]


def digest(a):
    a = np.asarray(a)
    return f'{list(a.shape)} ' + hashlib.sha1(np.ascontiguousarray(a, dtype=float).tobytes()).hexdigest()[:16]


def case(job):
    cid, sc, seed, wd = job
    import cfdtools._cli as cli
    import cfdtools.probes.data as pd
    import matplotlib.axes
    import matplotlib.pyplot as plt

    wd = os.path.join(wd, cid)
    os.mkdir(wd)
    rng = random.Random(seed)
    p = Probe(sc, rng, wd)
    ev = []
    order = [v for v, y in zip(sc['names'], sc['files']) if y]
    rng.shuffle(order)
    for v in order:
        ev.append({'op': 'put', 'var': v, 'version': p.put(v)})
    d = pd.phydata(p.prefix, verbose=sc['verbose'])
    for op in sc['ops']:
        k, v = op['op'], op['var']
        if k == 'put':
            if not sc['still'] and v in sc['names'] and len(p.old.get(v, [])) < 3:
                ev.append({'op': 'put', 'var': v, 'version': p.put(v)})
        elif k == 'remove':
            if not sc['still'] and v in p.files:
                p.remove(v)
                ev.append({'op': 'remove', 'var': v})
        elif k == 'request':
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all='ignore'):
                ok, r = outcome(d.check_data, v, p.prefix) if rng.random() < 0.5 else outcome(d.check_data, v, prefix=p.prefix)
            held = {x: a for x, a in d.alldata.items() if x != 'time'}
            tm = d.alldata.get('time')
            txt = '' if ok else str(r)
            ev.append({'op': 'request', 'var': v, 'exc': '' if ok else errtxt(r), 'named': [w for w in sc['names'] + ['time', 'nothing', 'u'] if w in txt.replace("'", ' ').replace(',', ' ').split()],
                       'held': [[x, digest(a), p.terms(x, a)] for x, a in held.items()] + ([['time', digest(tm), []]] if v == 'time' and ok else []),
                       'time': '' if tm is None else digest(tm), 'timed': [x for x in p.files if p.files[x] in p.times.get(x, {})],
                       'timeof': [] if tm is None else [x for x in p.files if p.files[x] in p.times.get(x, {}) and p.times[x][p.files[x]].shape == np.shape(tm) and np.allclose(p.times[x][p.files[x]], tm, rtol=1e-14)]})
            if v == 'time':
                ev.pop()
        elif k == 'map':
            if p.nt < 2 or p.np < 2 or v in ('time', 'X', 'Y', 'Z') or (op['kind'] == 'freq' and p.nt < 800):
                continue
            got = []
            orig = matplotlib.axes.Axes.contourf

            def rec(self, *a, **kw):
                got.append([np.asarray(x) for x in a[:3]])
                return orig(self, *a, **kw)

            cwd = os.getcwd()
            before = set(os.listdir(os.path.dirname(p.prefix)))
            args = [p.prefix, '--data', v, '--axis', op['axis'], '--map', op['kind']]
            if rng.random() < 0.3:
                args += ['--cmap', rng.choice(['viridis', 'jet', 'turbo']), '--cmaplevels', str(rng.choice([5, 12]))]
            matplotlib.axes.Axes.contourf = rec
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all='ignore'):
                    ok, r = outcome(cli.ic3probe_plotline, args)
            finally:
                matplotlib.axes.Axes.contourf = orig
                os.chdir(cwd)
                plt.close('all')
            name = f'{os.path.basename(p.prefix)}.{v}.{op["kind"]}.png'
            new = set(os.listdir(os.path.dirname(p.prefix))) - before
            f = os.path.join(os.path.dirname(p.prefix), name)
            ev.append({'op': 'map', 'var': v, 'axis': op['axis'], 'kind': op['kind'], 'exc': '' if ok else errtxt(r),
                       'drawn': p.terms(v, got[0][2]) if got else [], 'drawnaxis': p.terms(op['axis'], got[0][0], True) if got else [],
                       'file': bool(ok and new == {name} and os.path.getsize(f) > 0)})
            if os.path.exists(f):
                os.remove(f)
    shutil.rmtree(wd)
    return {'id': cid, 'ev': ev}


def run(ctx):
    os.environ.setdefault('MPLBACKEND', 'Agg')
    ctx.mc('ProbeBox', 'ProbeBox', dead_ok=('Remove',))
    ctx.mc('ProbeBox', 'ProbeMove')
    scen = ctx.gen('GenProbe', simulate=(600 if ctx.quick else 8000, 3))
    wd = ctx.subdir('probes')
    cases = [c for c in pmap(case, [(f'p{i}', s, ctx.rng.randrange(1 << 30), wd) for i, s in enumerate(scen)]) if c['ev']]
    ctx.notes['requests'] = sum(e['op'] == 'request' for c in cases for e in c['ev'])
    ctx.notes['answered'] = sum(e['op'] == 'request' and not e['exc'] for c in cases for e in c['ev'])
    ctx.notes['maps'] = sum(e['op'] == 'map' for c in cases for e in c['ev'])
    ctx.validate('ProbeTrace', cases)
    big.judge(ctx, bigger.probe_case, [(f'big{i}', d, ctx.rng.randrange(1 << 30), wd) for i, d in enumerate([(300, 300), (1024, 4), (2, 4096)] + ([] if ctx.quick else [(70000, 2), (3, 70000)]))])
