"""C23: polynomial and spectral transforms."""
import contextlib
import io
import math
import os
import random
import shutil

import numpy as np

import big
import bigger
from common import errtxt, outcome, pmap

ASSUMPTIONS = ['the points of interpolation are those of Gauss-Legendre quadrature in [-1, 1]',
               'samples are integers up to 10, positions are eighths up to 10/8: weights and amplitudes are compared with fixed-point values (1e-4 of a weight, 1e-2 of an amplitude, plus rounding of the sums)',
               'phases of spectra are not returned by the code']
SCALE = {'one': 1.0, 'eighth': 0.125, 'micro': 2.0 ** -20}


def q(v, cap):
    """rounded, capped so that the specification can square it"""
    v = float(v)
    return int(round(v)) if math.isfinite(v) and abs(v) <= cap else -cap - 1


def amp(v, unit=100):
    v = float(v)
    return int(round(unit * v)) if math.isfinite(v) and 0 <= v * unit <= 40000 else -40000


def steps(rng, sc, n):
    d = [sc['dt'] or rng.randint(1, 4) for _ in range(n - 1)]
    t = [rng.choice([0, 0, 5, -7, 100])]
    for x in d:
        t.append(t[-1] + x)
    return t


def signal(rng, kind, n):
    a = rng.randint(1, 10)
    if kind == 'noise':
        return [rng.randint(-10, 10) for _ in range(n)]
    if kind == 'tone':
        m, p = rng.randint(1, max(1, n // 2)), rng.random()
        return [round(10 * math.cos(2 * math.pi * (m * k / n + p))) for k in range(n)]
    if kind == 'step':
        return [a if k >= n // 2 else -a for k in range(n)]
    if kind == 'const':
        return [a] * n
    return [a if k == n // 3 else 0 for k in range(n)]


def limits(sc, n, rng):
    lo = {'none': None, 'low': 1, 'mid': n // 3, 'neg': -(n - 1), 'beyond': -(n + 3), 'zero': 0}[sc['lo']]
    hi = {'none': None, 'low': n - 1, 'mid': n - n // 4, 'neg': -1, 'beyond': n + 5, 'zero': n}[sc['hi']]
    return (lo, hi) if len(range(n)[lo:hi]) >= 2 else (None, None)


def opt(v):
    return [] if v is None else [v]


def dataset(data, sc, t, xs):
    ds = data.DataSet(Trep='timeevol' if sc['timed'] else 'instant')
    conv = {'int': int, 'float': float, 'float32': np.float32}[sc['kind']]
    arrays = {'time': np.array(t, dtype=float) * SCALE[sc['scale']]}
    for k, x in enumerate(xs):
        arrays[f'q{k}'] = np.array(x, dtype=conv)
    for name, a in arrays.items():
        ds.add_data(name, a)
    return ds, {k: a.copy() for k, a in arrays.items()}


def asked(sc, xs, rng):
    names = [f'q{k}' for k in range(len(xs))]
    if sc['sub'] == 'all':
        return names, None
    some = rng.sample(names, rng.randint(1, len(names)))
    return some, (['time'] + some if sc['sub'] == 'withtime' else list(some))


def sameall(ds, before):
    return list(ds.keys()) == list(before) and all(np.array_equal(ds[k], before[k]) for k in before)


def transform(sc, rng, data):
    gram = sc['op'] == 'spectrogram'
    win = sc['win'] if gram else 0
    n = (rng.choice([400, 437, 650]) if win == 0 else sc['long']) if gram else sc['n']
    if gram and win == 0:
        sc = {**sc, 'nf': 1}
    t = steps(rng, sc, n)
    xs = [signal(rng, sc['sig'], n) for _ in range(sc['nf'])]
    ds, before = dataset(data, sc, t, xs)
    names, flt = asked(sc, xs, rng)
    e = {'op': sc['op'], 'timed': sc['timed'], 't': t, 'x': [xs[int(k[1:])] for k in names], 'names': names}
    kw = {}
    if flt is not None:
        kw['datafilter'] = flt
    if gram:
        e['win'] = win
        if win or rng.random() < 0.5:
            kw['window'] = win or None
        ok, r = outcome(ds.dataSet_spectrogram, **kw)
    else:
        lo, hi = limits(sc, n, rng)
        e.update(lo=opt(lo), hi=opt(hi))
        if lo is not None or rng.random() < 0.3:
            kw['imin'] = lo
        if hi is not None or rng.random() < 0.3:
            kw['imax'] = hi
        ok, r = outcome(ds.dataSet_spectrum, **kw)
    e['exc'] = '' if ok else errtxt(r)
    e['kept'] = sameall(ds, before)
    e['got'] = list(r.keys()) if ok else []
    e.update(freq=[], amp=[], time=[])
    if not ok:
        return e
    if gram:
        dt = (before['time'][-1] - before['time'][0]) / (n - 1)
        m = 2 * ((win or n // 100) // 2) + 1
        e['time'] = [q(v / SCALE[sc['scale']], 10 ** 6) for v in np.asarray(r['time']).ravel()]
        e['amp'] = [[[amp(np.exp(v)) for v in row] for row in np.asarray(r[k])] if k in r.keys() else [] for k in names]
    else:
        s = before['time'][lo:hi]
        m = len(s)
        dt = (s[-1] - s[0]) / (m - 1)
        e['amp'] = [[amp(v) for v in np.asarray(r[k])] if k in r.keys() else [] for k in names]
    e['freq'] = [q(v * m * dt * 1000, 10 ** 7) for v in np.asarray(r['freq']).ravel()]
    return e


def weights(sc, rng, poly, pool):
    grad = sc['op'] == 'grad'
    key = (sc['order'], sc['series'])
    if sc['fresh'] or key not in pool:
        pool[key] = poly.poly1d(sc['order'], series=sc['series']) if sc['series'] != 'legendre' or rng.random() < 0.5 else poly.poly1d(sc['order'])
    p = pool[key]
    xs = [x if sc['order'] <= 4 else max(-8, min(8, x)) for x in sc['xs']]
    f = getattr(p, {(0, 0): 'interp_weights', (0, 1): 'value_weights', (1, 0): 'diff_weights', (1, 1): 'gradv_weights'}[grad, sc['alias']])
    unit = 1000 if grad else 10000
    if sc['scalar'] or rng.random() < 0.2:
        rs = [outcome(f, x / 8) for x in xs]
        ok = all(a for a, _ in rs)
        r = [b for _, b in rs] if ok else [b for a, b in rs if not a][0]
        shape = all(np.shape(b) == (sc['order'],) for b in r) if ok else True
    else:
        arg = np.array(xs) / 8
        keep = arg.copy()
        ok, r = outcome(f, arg)
        shape = np.shape(r) == (sc['order'], len(xs)) and np.array_equal(arg, keep) if ok else True
        if ok and shape:
            r = np.asarray(r).T
    e = {'op': sc['op'], 'timed': True, 'order': sc['order'], 'series': sc['series'], 'xs': xs, 'exc': '' if ok else errtxt(r)}
    e['w'] = [[q(unit * v, 200000) for v in w] for w in r] if ok and shape else []
    return e


def freqmap(sc, rng, wd, cli):
    import matplotlib.axes
    import matplotlib.pyplot as plt

    n, npos = rng.choice([600, 601, 799, 800]), rng.choice([2, 3])
    t = steps(rng, {**sc, 'dt': 0 if rng.random() < 0.3 else 2}, n)
    xs = [signal(rng, rng.choice(['noise', 'step', 'pulse']), n) for _ in range(npos)]
    for x in xs:
        m, a = rng.choice([1, 2, 3]), rng.randint(0, 5)
        for k in range(n):
            x[k] = max(-10, min(10, x[k] + round(a * math.cos(2 * math.pi * m * k / n))))
    prefix = os.path.join(wd, 'probe')
    with open(prefix + '.P', 'w') as f:
        for k in range(n):
            f.write(' '.join([str(k), repr(t[k] * SCALE[sc['scale']]), str(npos)] + [repr(float(x[k])) for x in xs]) + '\n')
    with open(prefix + '.X', 'w') as f:
        for k in range(n):
            f.write(' '.join([str(k), repr(t[k] * SCALE[sc['scale']]), str(npos)] + [repr(j + 1.0) for j in range(npos)]) + '\n')
    got = []
    orig = matplotlib.axes.Axes.contourf

    def rec(self, *a, **kw):
        got.append([np.asarray(x) for x in a[:3]])
        return orig(self, *a, **kw)

    cwd = os.getcwd()
    matplotlib.axes.Axes.contourf = rec
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all='ignore'):
            ok, r = outcome(cli.ic3probe_plotline, [prefix, '--data', 'P', '--map', 'freq'])
    finally:
        matplotlib.axes.Axes.contourf = orig
        os.chdir(cwd)
        plt.close('all')
    e = {'op': 'freqmap', 'timed': True, 'x': xs, 'exc': '' if ok else errtxt(r), 'freq': [], 'amp': [], 'pos': []}
    if ok and got and len(got[0]) == 3 and np.ndim(got[0][2]) == 2:
        x, y, v = got[0]
        dt = (t[-1] - t[0]) * SCALE[sc['scale']] / (n - 1)
        e['pos'] = [q(p, 1000) for p in x.ravel()]
        e['freq'] = [q(f * n * dt * 1000, 10 ** 7) for f in y.ravel()]
        e['amp'] = [[amp(a, 1) for a in row] for row in v]
    return e


def case(job):
    cid, ops, seed, wd = job
    import cfdtools._cli as cli
    import cfdtools.data as data
    import cfdtools.utils.maths as maths
    import cfdtools.utils.polybase as poly

    wd = os.path.join(wd, cid)
    os.mkdir(wd)
    rng = random.Random(seed)
    pool, ev = {}, []
    nmap = 0
    for sc in ops:
        k = sc['op']
        with np.errstate(all='ignore'):
            if k in ('value', 'grad'):
                ev.append(weights(sc, rng, poly, pool))
            elif k in ('spectrum', 'spectrogram'):
                ev.append(transform(sc, rng, data))
            elif k == 'freqmap':
                nmap += 1
                if nmap == 1 and rng.random() < 0.3:
                    ev.append(freqmap(sc, rng, wd, cli))
            elif k == 'dtstats':
                t = steps(rng, sc, sc['n'])
                ds, before = dataset(data, sc, t, [])
                lo, hi = limits(sc, sc['n'], rng)
                ok, r = outcome(ds.dtstats, lo, hi) if rng.random() < 0.5 else outcome(ds.dtstats, imin=lo, imax=hi)
                e = {'op': k, 'timed': sc['timed'], 't': t, 'lo': opt(lo), 'hi': opt(hi), 'exc': '' if ok else errtxt(r), 'n': -1, 'mean': 0, 'var': 0}
                if ok:
                    m, u = len(range(len(t))[lo:hi]) - 1, SCALE[sc['scale']]
                    e.update(n=q(r[2], 10 ** 6), mean=q(r[0] / u * m, 10 ** 8), var=q((r[1] / u * m) ** 2, 10 ** 8))
                ev.append(e)
            elif k == 'minavgmax':
                x = signal(rng, sc['sig'], sc['n'])
                a = np.array(x, dtype={'int': int, 'float': float, 'float32': np.float32}[sc['kind']])
                rng2 = rng.random()
                ok, r = outcome(lambda: [float(v) for v in maths.minavgmax(a if rng2 < 0.6 else list(x))])
                ev.append({'op': k, 'timed': True, 'x': x, 'exc': '' if ok else errtxt(r),
                           'res': [q(r[0], 10 ** 6), q(r[1] * len(x), 10 ** 6), q(r[2], 10 ** 6)] if ok and len(r) == 3 else []})
            elif k == 'distance':
                n = rng.choice([1, 2, 5])
                a, b = [[[rng.randint(-50, 50) for _ in range(3)] for _ in range(n)] for _ in range(2)]
                one = rng.random() < 0.3
                if one:
                    b = [b[0]] * n
                ok, r = outcome(maths.distance, np.array(a, dtype=float), np.array(b[0] if one else b, dtype=float))
                ev.append({'op': k, 'timed': True, 'a': a, 'b': b, 'exc': '' if ok else errtxt(r), 'res': [q(v * v, 10 ** 8) for v in np.asarray(r).ravel()] if ok else []})
    shutil.rmtree(wd)
    return {'id': cid, 'ev': ev}


def run(ctx):
    os.environ.setdefault('MPLBACKEND', 'Agg')
    ctx.mc('PolyAlg', 'PolyAlg')
    ctx.mc('SpectroAlg', 'SpectroAlg')
    if not ctx.quick:
        ctx.mc('PolyAlg', 'PolyAlgBig')
    scen = ctx.gen('GenNum', simulate=(300 if ctx.quick else 4000, 3))
    wd = ctx.subdir('numbers')
    cases = [c for c in pmap(case, [(f'n{i}', s, ctx.rng.randrange(1 << 30), wd) for i, s in enumerate(scen)]) if c['ev']]
    kinds = sorted({e['op'] for c in cases for e in c['ev']})
    for k in kinds:
        ctx.notes[k] = sum(e['op'] == k for c in cases for e in c['ev'])
    ctx.notes['refused'] = sum(not e['timed'] and e['exc'] != '' for c in cases for e in c['ev'])
    ctx.validate('NumTrace', cases)
    big.judge(ctx, bigger.spectrum_case, [(f'big{i}', n, ctx.rng.randrange(1 << 30)) for i, n in enumerate([1024, 4097, 65536, 70001])])
