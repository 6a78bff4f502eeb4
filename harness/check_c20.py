"""C20: timers, cached functions and data sets keep their contracts over any sequence of calls."""
import contextlib
import hashlib
import io
import logging
import os
import random
import re
import shutil
import time

import numpy as np

from common import errtxt, outcome, pmap

ASSUMPTIONS = ['time is what time.perf_counter or time.monotonic tells (replaced by a clock of the harness that moves by quarters of seconds)',
               'cached functions are given hashable arguments', 'fields of a set used for spectra are as long as its time',
               'values of spectra are compared with those of numpy to tell which field they come from, not for their accuracy']


class Clock:
    def __init__(self):
        self.now = 4000

    def perf(self):
        return self.now / 4

    def perf_ns(self):
        return self.now * 250000000


@contextlib.contextmanager
def fake_clock():
    ck = Clock()
    old = {n: getattr(time, n) for n in ('perf_counter', 'monotonic', 'perf_counter_ns', 'monotonic_ns')}
    try:
        time.perf_counter = time.monotonic = ck.perf
        time.perf_counter_ns = time.monotonic_ns = ck.perf_ns
        yield ck
    finally:
        for n, f in old.items():
            setattr(time, n, f)


class Lines(logging.Handler):
    def __init__(self):
        super().__init__(1)
        self.txt = []

    def emit(self, record):
        self.txt.append(record.getMessage())


def quarters(x):
    return int(x * 4) if x * 4 == int(x * 4) else -1


def timer_case(job):
    cid, ops, nt, seed = job
    rng = random.Random(seed)
    h = Lines()
    root = logging.getLogger()
    pk = logging.getLogger('cfdtools')
    lv = root.level, pk.level, pk.disabled, logging.root.manager.disable
    blocks = []
    with fake_clock() as ck:
        import importlib

        import cfdtools.api as api

        if 'from time import' in open(api.__file__).read():
            api = importlib.reload(api)  # names of the clock bound before it was replaced
        logging.disable(logging.NOTSET)
        pk.disabled = False
        pk.setLevel(logging.DEBUG)
        root.setLevel(logging.DEBUG)
        old, root.handlers = root.handlers, [h]
        oldpk, pk.handlers = pk.handlers, [h]
        lg = logging.getLogger('cfdtools.api')
        lg.disabled, lg.propagate = False, True
        try:
            make = [lambda: api.Timer(), lambda: api.Timer('task'), lambda: api.Timer(task='t' * 80, nelem=7), lambda: api.Timer(msg='m', ltab=30)]
            t = [rng.choice(make)() for _ in range(nt)]
            blocks[:] = [None] * nt

            def within(x):
                with x:
                    yield

            ev = []
            for k, op in ops:
                d = rng.choice([0, 1, 1, 2, 3, 7])
                ck.now += d
                x = t[k - 1]
                h.txt = []
                out = io.StringIO()
                e = {'t': k, 'op': op, 'd': d, 'out': 'ok'}

                class Body(Exception):
                    pass

                with contextlib.redirect_stdout(out):
                    try:
                        if op == 'stop':
                            a = rng.choice([None, None, 3, 1000, 0])
                            x.stop() if a is None else x.stop(nelem=a) if rng.random() < 0.5 else x.stop(a)
                        elif op in ('start', 'pause', 'reset'):
                            getattr(x, op)()
                        elif op == 'enter':
                            g = within(x)
                            next(g)
                            blocks[k - 1] = g
                        else:
                            g, blocks[k - 1] = blocks[k - 1], None
                            if op == 'exit':
                                next(g, None)
                            else:
                                try:
                                    g.throw(Body())
                                    e['out'] = 'swallowed'
                                except StopIteration:
                                    e['out'] = 'swallowed'
                                except Body:
                                    pass
                    except api.TimerError:
                        e['out'] = 'refused'
                    except Exception as x_:
                        e['out'] = errtxt(x_)
                txt = ' '.join(h.txt) + ' ' + out.getvalue()
                e['rep'] = sorted({quarters(float(v)) for v in re.findall(r'(?<![\w.])\d+\.\d+', txt)})
                e['seen'] = [quarters(v.elapsed) for v in t]
                ev.append(e)
        finally:
            for g in blocks:
                with contextlib.suppress(Exception):
                    g.throw(KeyError())
            root.handlers, pk.handlers = old, oldpk
            root.setLevel(lv[0])
            pk.setLevel(lv[1])
            logging.disable(lv[3])
    return {'id': cid, 'kind': 'timer', 'nt': nt, 'ev': ev}


SMALL = ['value', 'none', 'rec', 'raise', 'once']
LARGE = ['value', 'value', 'rec', 'rec', 'none', 'value', 'raise', 'once', 'value', 'value', 'value', 'rec', 'value']
TUPLES = [(5,), (-1,), (-2,), ('a',), (), ((5,),), (None,), (0,), ('5',), (5, 5), (5 + 2 ** 61 - 1,), ((),), (5.5,), ('a', None), ('',), (b'a',)]


def memo_case(job):
    cid, ops, kinds, seed = job
    import cfdtools.api as api

    rng = random.Random(seed)
    args = rng.sample(TUPLES, len(kinds))
    nf = max(f for f, _ in ops)
    made = {}
    count = [0]
    seen = set()
    cached = {}

    def body(f):
        def fun(*a):
            count[0] += 1
            me = count[0]
            i = args.index(a)
            first = (f, a) not in seen
            seen.add((f, a))
            k = kinds[i]
            if k == 'rec':
                cached[f](*args[i - 1])
                cached[f](*args[i - 2])
            if k == 'raise' or (k == 'once' and first):
                raise ArithmeticError(me)
            if k == 'none':
                return None
            made[me] = rng.choice([list, dict, set])()  # values are recognised by identity, whatever they hold
            return made[me]

        return fun

    for f in range(1, nf + 1):
        cached[f] = api.memoize(body(f))
    ev = []
    for f, a in ops:
        tup = tuple(args[a - 1])
        try:
            v = cached[f](*tup)
            who = [n for n, o in made.items() if o is v]
            res = [who[0] if who else 0 if v is None else -1, 'ok']
        except ArithmeticError:
            res = [0, 'raised']
        except Exception as x:
            res = [0, errtxt(x)]
        inf = [cached[g].cache_info() for g in range(1, nf + 1)]
        ev.append({'f': f, 'a': a, 'res': res, 'n': count[0], 'hits': [i.hits for i in inf], 'misses': [i.misses for i in inf], 'size': [i.currsize for i in inf]})
    return {'id': cid, 'kind': 'memo', 'nf': nf, 'kinds': kinds, 'ev': ev}


def token(v):
    if v is None:
        return 'None'
    if hasattr(v, 'nodescoord'):
        return f'mesh {id(v)}'
    a = np.asarray(v)
    if a.dtype == object:
        return f'obj {v!r}'
    return f'{a.dtype.kind}{list(a.shape)} ' + hashlib.sha1(np.ascontiguousarray(a).tobytes()).hexdigest()[:16]


def num_token(v):
    return repr(float(v))


def p_set(d):
    props = getattr(d, '_properties', None)
    tm = ['unseen'] if props is None else [num_token(props['time'])] if props.get('time') is not None else []
    return {'items': [[str(k), token(v)] for k, v in d.items()], 'trep': str(d.Trep), 'xrep': str(d.Xrep), 'ndof': int(d.ndof),
            'time': tm, 'geo': [[str(k), token(v)] for k, v in d.geoprop.items()]}


def data_case(job):
    cid, scen, seed, wd = job
    import cfdtools.data as data
    import cfdtools.meshbase.simple as simple
    import h5py

    wd = os.path.join(wd, cid)
    os.mkdir(wd)
    rng = random.Random(seed)
    nr = np.random.RandomState(seed % (1 << 31))
    n = {'short': 20, 'odd': 61, 'even': 100, 'long': 401}[scen['size']]
    mesh = simple.Cube(2, 1, 1).export_mesh()
    ncell = 2
    sets, lists, ev, given, lastdict = [], [], [], [], {}
    hasdict = []

    def keep(v):
        given.append((v, None))
        return v

    def field(name):
        if name == 'time':
            return rng.choice([0.0, 1.0, -3.0, 1e4]) + np.arange(n) * rng.choice([0.5, 1.0, 1e-3])
        return nr.standard_normal(n) + rng.choice([0, 10.0])

    def cellfield(shape):
        return nr.standard_normal({'scalar': (ncell,), 'vector': (ncell, 3), 'tensor': (ncell, 3, 3)}[shape])

    ops = list(scen['ops'])
    if scen['filled']:
        ops = [{**ops[0], 'op': 'new', 'trep': 'timeevol', 'xrep': 'nodal', 'ndof': 1}] + [{**ops[0], 'op': 'add', 'name': x, 'time': 'none'} for x in ('time', 'u', 'v')] + ops
    watched = []

    def digest():
        return [token(v) if not isinstance(v, (list, dict)) else repr([(k, token(v[k])) for k in v]) if isinstance(v, dict) else repr(v) for v in watched]

    for op in ops:
        k = op['op']
        e = {'op': k, 'exc': ''}
        onlist = k in ('addlist', 'dump')
        if k not in ('new', 'newlist') and not (lists if onlist else sets):
            continue
        i = (op['d'] - 1) % len(lists if onlist else sets) if k not in ('new', 'newlist') else 0
        e['d'] = i + 1
        tnum = {'none': None, 'zero': rng.choice([0, 0.0]), 'num': rng.choice([1.5, -2.0, 1e-9]), 'int': 3}[op['time']]
        ttok = 'none' if tnum is None else num_token(tnum)
        act = None
        if k == 'new':
            e.update(xrep=op['xrep'], ndof=op['ndof'], trep=op['trep'])

            def act():
                sets.append(data.DataSet(Xrep=op['xrep'], ndof=op['ndof'], Trep=op['trep']))
        elif k == 'newlist':
            def act():
                lists.append(data.DataSetList(rng.choice([0, 3])))
                lists[-1].set_mesh(mesh)
        elif k == 'add':
            v = field(op['name'])
            watched.append(v)
            e.update(name=op['name'], val=token(v), time=ttok)
            d = sets[i]
            act = lambda: d.add_data(op['name'], v) if tnum is None else d.add_data(op['name'], v, tnum) if rng.random() < 0.5 else d.add_data(op['name'], v, time=tnum)
        elif k in ('pop', 'get'):
            e.update(name=op['name'], val='')
            d = sets[i]

            def act():
                e['val'] = token(d.pop(op['name']) if k == 'pop' else d[op['name']])
        elif k == 'setdata':
            v = {x: field(x) for x in rng.sample(['time', 'u', 'v', 'z'], rng.randrange(0, 4))}
            e['items'] = [[x, token(y)] for x, y in v.items()]
            d = sets[i]

            def act():
                d.data = dict(v)
        elif k == 'nodes':
            x = nr.standard_normal(5)
            mk = {'no': None, 'array': nr.standard_normal(5), 'list': [0.5, 1.0, 2.0], 'zero': np.zeros(1)}
            y, z = mk[op['y']], mk[op['z']]
            e['geo'] = [[a, token(b)] for a, b in (('x', x), ('y', y), ('z', z)) if b is not None]
            d = sets[i]
            act = lambda: d.set_nodes(x, y, z) if y is not None and z is not None else d.set_nodes(x, **({'y': y} if y is not None else {}), **({'z': z} if z is not None else {}))
            watched.extend(b for b in (x, y, z) if b is not None)
        elif k == 'mesh':
            d = sets[i]
            e['geo'] = [['mesh', token(mesh)]]
            act = lambda: d.set_mesh(mesh)
        elif k in ('spectrum', 'spectrogram'):
            d = sets[i]
            flt = list(op['filter'])
            e['filter'] = list(flt)
            e.update(new=[], shape=[], nsel=0, nt=0, nf=0)
            e['from'] = []
            lo, hi = {'all': (None, None), 'from': (rng.randrange(0, n - 5), None), 'to': (None, rng.randrange(5, n)), 'part': (2, n - 3)}[op['range']]
            if k == 'spectrum' and 'freq' in d.keys():
                continue
            arg = flt if flt or rng.random() < 0.3 else None
            watched.append(flt)
            orig = {x: y for x, y in d.items()}
            win = rng.choice([8, 9, 10, 12, 13, 18]) if n < 400 or rng.random() < 0.7 else None

            def act():
                if k == 'spectrum':
                    kw = {}
                    if lo is not None or rng.random() < 0.3:
                        kw['imin'] = lo
                    if hi is not None:
                        kw['imax'] = hi
                    q = d.dataSet_spectrum(arg, **kw) if arg is not None else d.dataSet_spectrum(**kw)
                    e['nsel'] = len(range(*slice(lo, hi).indices(n)))
                    for x, y in q.items():
                        y = np.asarray(y)
                        e['shape'].append(list(y.shape))
                        if x != 'freq':
                            src = []
                            for a, b in orig.items():
                                w = np.abs(np.fft.fft(b[lo:hi]))
                                if w.shape == y.shape and np.allclose(w, y, rtol=1e-6, atol=1e-6 * max(1, w.max())):
                                    src.append(a)
                            e['from'].append([x, src])
                else:
                    with np.errstate(all='ignore'):
                        q = d.dataSet_spectrogram(arg, window=win) if arg is not None else d.dataSet_spectrogram(window=win)
                    e['shape'] = [list(np.asarray(y).shape) for _, y in q.items()]
                    e['nt'], e['nf'] = len(q['time']), len(q['freq'])
                e['new'] = p_set(q)['items']
                sets.append(q)
        elif k == 'dtstats':
            d = sets[i]
            act = lambda: d.dtstats()
        elif k == 'addlist':
            q = lists[i]
            if op['keep'] and lastdict:
                v = rng.choice(list(lastdict.values()))
            else:
                v = {x: cellfield(op['shape']) for x in rng.sample(['u', 'v', 'p rms', 'T'], rng.randrange(0, 4))}
                if rng.random() < 0.3:
                    v['time'] = rng.choice([0.0, 2.5])
            lastdict[len(lastdict)] = v
            if tnum is None and 'time' in v:
                ttok = num_token(v['time'])
            e['items'] = [[x, token(y)] for x, y in v.items() if x != 'time']
            e['time'] = ttok
            watched.append(v)
            act = lambda: q.add_datalist(v) if tnum is None else q.add_datalist(v, time=tnum) if rng.random() < 0.5 else q.add_datalist(v, tnum)
        elif k == 'dump':
            q = lists[i]
            e['groups'] = []

            def act():
                f = q.dumphdf(os.path.join(wd, cid + '.h5'), overwrite=rng.random() < 0.5, **rng.choice([{}, {'compression': 'gzip'}]))
                with h5py.File(f, 'r') as h:
                    g = h['datalist']
                    for name in sorted(g.keys()):
                        at = g[name].attrs
                        e['groups'].append({'items': [[x, token(g[name][x][()])] for x in g[name].keys()], 'time': [num_token(at['time'])] if 'time' in at else []})
                os.remove(f)
        e['arg'] = digest()
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            ok, res = outcome(act)
        e['argafter'] = digest()
        if not ok:
            e['exc'] = errtxt(res)
        if k == 'dump' and not ok:
            e['groups'] = []
        e['sets'] = [p_set(d) for d in sets]
        ev.append(e)
        if len(watched) > 12:
            watched = watched[-12:]
    shutil.rmtree(wd)
    return {'id': cid, 'kind': 'data', 'ev': ev}


def run(ctx):
    ctx.mc('TimerBox', 'TimerBox')
    ctx.mc('MemoBox', 'MemoBox')
    ctx.mc('DataBox', 'DataBox')
    q = ctx.quick
    seed = lambda: ctx.rng.randrange(1 << 30)
    t1 = ctx.gen('TimerBox', 'TimerGen')
    t2 = ctx.gen('TimerBox', 'TimerSim', simulate=(1000 if q else 20000, 15))
    cases = pmap(timer_case, [(f't{i}', o, 1, seed()) for i, o in enumerate(t1)] + [(f'u{i}', o, 2, seed()) for i, o in enumerate(t2)])
    ctx.notes['timer histories'] = len(cases)
    m1 = ctx.gen('MemoBox', 'MemoGen')
    m2 = ctx.gen('MemoBox', 'MemoSim', simulate=(60 if q else 1500, 17))
    memo = pmap(memo_case, [(f'm{i}', o, SMALL, seed()) for i, o in enumerate(m1)] + [(f'n{i}', o, LARGE, seed()) for i, o in enumerate(m2)])
    ctx.notes['cache histories'] = len(memo)
    ctx.validate('BoxTrace', cases + memo)
    d = ctx.gen('GenData', simulate=(800 if q else 10000, 3))
    wd = ctx.subdir('data')
    dc = [x for x in pmap(data_case, [(f'd{i}', s, seed(), wd) for i, s in enumerate(d)]) if x['ev']]
    ctx.notes['data set histories'] = len(dc)
    ctx.validate('BoxTrace', dc)
