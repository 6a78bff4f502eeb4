"""C06: a truncated or damaged restart file is never accepted."""
import os
import random
import resource
import signal
import struct

import big
import bigger
import gen
import ic3fmt
import life
import proj
from common import outcome, pmap

ASSUMPTIONS = ['incomplete files are prefixes of complete ones, or what the system left of a writing it stopped (size limit, kill)']


def read_legacy(fname, integrity=False):
    import cfdtools.ic3.reader_legacy as rl

    def f():
        r = rl.reader(fname, cIntegrity=integrity)
        r.read_data()
        return r.export_mesh()

    try:
        ok, r = outcome(f)
    except MemoryError:
        ok = False
    return 'read' if ok else 'raised'


def read_v4(mesh, sol=None):
    import cfdtools.ic3.readerV4 as r4

    def f():
        r = r4.reader(mesh, sol)
        r.read_data()
        return r.export_mesh()

    return 'read' if outcome(f)[0] else 'raised'


def put(fname, b):
    with open(fname, 'wb') as f:
        f.write(b)


def cut_points(size, secs, rng, every, extra):
    if every:
        return range(size)
    pts = {0, 1, 4, 7, 8}
    for a, n in secs:
        pts |= {a, a + 1, a + 255, a + 256, a + 257, a + n - 1}
    pts |= {rng.randrange(size) for _ in range(extra)}
    return sorted(p for p in pts if p < size)


def cut_case(job):
    """prefixes of a fabricated IC3 2/3 file (any order of sections)"""
    cid, sc, order, every, seed, wd = job
    rng = random.Random(seed)
    b = ic3fmt.fabricate(sc['ver'], rng.choice('<>'), life.fabricated(sc, rng))
    if order is not None:
        b = life.in_order(b, order, rng)
    fname = f'{wd}/{cid}.ic3'
    put(fname, b)
    ev = [{'op': 'whole', 'out': read_legacy(fname, rng.random() < 0.5)}]
    secs = [[s[0], s[3]] for s in ic3fmt.raw_sections(b)[3]]
    out = []
    with open(fname, 'r+b') as f:  # shorten the same file step by step
        for n in sorted(cut_points(len(b), secs, rng, every, 20), reverse=True):
            f.truncate(n)
            out.append([n, read_legacy(fname, rng.random() < 0.5)])
    ev.append({'op': 'cuts', 'size': len(b), 'sec': secs, 'all': bool(every), 'out': out})
    os.remove(fname)
    return {'id': cid, 'ev': ev}


def damage_case(job):
    cid, sc, order, damages, seed, wd = job
    rng = random.Random(seed)
    m = life.fabricated(sc, rng) if 'big' not in sc else big_mesh(sc['big'], rng)
    en = rng.choice('<>')
    b = ic3fmt.fabricate(sc['ver'], en, m)
    if order is not None:
        b = life.in_order(b, order, rng)
    fname = f'{wd}/{cid}.ic3'
    put(fname, b)
    ev = [{'op': 'whole', 'out': read_legacy(fname, True)}]
    for d in damages:
        n = damaged(b, d, rng)
        if n is None:
            continue
        put(fname, n)
        ev.append({'op': 'damage', 'damage': d, 'out': read_legacy(fname, d['integrity'])})
    os.remove(fname)
    return {'id': cid, 'ev': ev}


def damaged(b, d, rng):
    """the file with one damage; None when it does not apply"""
    en, magic, version, secs, end, err = ic3fmt.raw_sections(b)
    new = [list(s[1:3]) + [list(s[4]), s[5], s[6], s[3]] for s in secs]
    kinds = [ic3fmt.IDS.get(s[2], 'OTHER') for s in secs]
    if d['k'] == 'FIELD':
        cand = [i for i, k in enumerate(kinds) if k in ('NO_D1', 'NO_D3', 'NO_II1', 'CV_D1', 'CV_D3', 'CV_D33', 'CV_II1')]
    else:
        cand = [i for i, k in enumerate(kinds) if k == d['k']]
    if not cand:
        return None
    s = new[rng.choice(cand)]
    if d['what'] == 'count':
        v = s[2][d['slot']] + d['delta']
        if v < 0:
            return None
        s[2][d['slot']] = v
    else:
        n = s[2][0]  # entries: the first n integers
        p = {'first': 0, 'middle': n // 2, 'last': n - 1}[d['where']]
        vals = list(struct.unpack(en + 'i' * n, s[4][:4 * n]))
        if d['what'] == 'swap':
            q = p - 1 if p else 1
            if q >= n:
                return None
            vals[p], vals[q] = vals[q], vals[p]
        else:
            vals[p] += d['delta']
        s[4] = struct.pack(en + 'i' * n, *vals) + s[4][4 * n:]
    return ic3fmt.build(en, version, [tuple(x) for x in new])


def big_mesh(n, rng):
    """counts large enough that an approximate comparison would not see a damage"""
    return {'nnode': n, 'ncell': n, 'faces': [([i % n, (i + 1) % n, (i + 2) % n], (n - 1, -1)) for i in range(n)],
            'zones': [('wall', 1, 0, n - 1, [])], 'part': (1, [0] * n), 'xyz': [[0.0, 0.0, 0.0]] * n, 'step': 1, 'dt': 1.0, 'time': 1.0,
            'wgt': [], 'fields': []}


# ---------------------------------------------------------------- IC3 version 4, and writings that are stopped
def mesh_with_data(rng, stats):
    import cfdtools.data as data

    gm = life.make_gm(rng.choice(['hexa', 'small', 'prism']), rng)
    mesh, _ = proj.build_mesh(gm, rng, 'default', life.make_coords(gm, rng))
    mk = life.Marker(gm, rng)
    life.add_mark(mesh, mk, {'rel': 'side', 'kind': 'node', 'type': rng.choice(['boundary', 'perio_cart']), 'name': 'plain'}, rng)
    ds = data.DataSet('cellaverage')
    for nm, sh in [('RHO', ()), ('RHOU', (3,)), ('RHOE', ())] + ([('RHO_AVG', ()), ('U_REY', (3, 3))] if stats else []):
        ds.add_data(nm, life.values((gm.ncell,) + sh, rng))
    mesh.set_celldata(ds)
    mesh.set_params({'step': 3, 'dt': 0.5, 'time': 1.5, 'wgt': {'RHO_AVG': 2.0} if stats else {}})
    return mesh


def write_as(ver, mesh, wd, name):
    """writes the files; returns their names"""
    import cfdtools.ic3.writerV4 as w4

    if ver == 4:
        f = [f'{wd}/{name}-m.h5', f'{wd}/{name}-s.h5']
        w4.writer(mesh).write_data(f[0], f[1])
        return f
    f = [f'{wd}/{name}.ic3']
    life.writer_of(ver)(mesh).write_data(f[0])
    return f


def names_of(ver, wd, name):
    return [f'{wd}/{name}-m.h5', f'{wd}/{name}-s.h5'] if ver == 4 else [f'{wd}/{name}.ic3']


def read_files(ver, files):
    return read_v4(*files) if ver == 4 else read_legacy(files[0], True)


def v4_cut_case(job):
    cid, every, seed, wd = job
    rng = random.Random(seed)
    mesh = mesh_with_data(rng, rng.random() < 0.6)
    fm, fs = write_as(4, mesh, wd, cid)
    ev = [{'op': 'whole', 'out': read_v4(fm, fs)}, {'op': 'whole', 'out': read_v4(fm)}]
    for target in (fm, fs):
        with open(target, 'rb') as f:
            b = f.read()
        pts = range(len(b)) if every else sorted({0, 1, 4, 7, 8, 95, 96, 97, 512, len(b) - 1, len(b) - 2, len(b) // 2}
                                                  | {rng.randrange(len(b)) for _ in range(60)})
        out = []
        for n in [p for p in pts if p < len(b)]:
            put(target, b[:n])
            out.append([n, read_v4(fm, fs) if target == fs or rng.random() < 0.5 else read_v4(fm)])
        put(target, b)
        ev.append({'op': 'cuts', 'size': len(b), 'sec': [], 'all': bool(every), 'out': out})
    return {'id': cid, 'ev': ev}


def in_child(f):
    """'done', 'raised' or 'killed': f in a process of its own"""
    pid = os.fork()
    if pid == 0:
        try:
            nul = os.open('/dev/null', os.O_WRONLY)
            os.dup2(nul, 1)
            os.dup2(nul, 2)
            f()
            os._exit(0)
        except BaseException:
            os._exit(3)
    st = os.waitpid(pid, 0)[1]
    return 'done' if st == 0 else 'raised' if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3 else 'killed'


def stop_case(job):
    """the system refuses to write beyond a size (as a full disk does), or the process is killed during the writing"""
    cid, ver, seed, nlim, wd = job
    rng = random.Random(seed)
    mesh = mesh_with_data(rng, True)
    full = write_as(ver, mesh, wd, cid + 'full')
    ev = [{'op': 'whole', 'out': read_files(ver, full)}]
    size = max(os.path.getsize(f) for f in full)
    name = cid + 'cut'
    files = names_of(ver, wd, name)
    lims = [0, 8, 264, size - 1] + [rng.randrange(1, size) for _ in range(nlim)]
    for lim in lims:
        for f in files:
            if os.path.exists(f):
                os.remove(f)

        def go():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
            write_as(ver, mesh, wd, name)

        wrote = in_child(go)
        ev.append({'op': 'stop', 'how': 'size', 'lim': lim, 'wrote': 'raised' if wrote != 'done' else 'done', 'out': read_files(ver, files)})
    k = 0
    while k < 40:  # killed before the k-th write
        for f in files:
            if os.path.exists(f):
                os.remove(f)
        k += 1 if ver == 4 else rng.choice([1, 2, 3])
        wrote = in_child(lambda: killed(ver, mesh, wd, name, k))
        if wrote == 'done':
            break
        if all(os.path.exists(f) for f in files):
            ev.append({'op': 'stop', 'how': 'kill', 'lim': k, 'wrote': 'raised', 'out': read_files(ver, files)})
    return {'id': cid, 'ev': ev}


def killed(ver, mesh, wd, name, k):
    """end the process at the k-th write call on the files (h5py or built-in file objects)"""
    import builtins

    import h5py

    n = [0]

    def tick():
        n[0] += 1
        if n[0] >= k:
            os._exit(9)

    if ver == 4:
        orig = h5py.Group.create_dataset

        def create(self, *a, **kw):
            tick()
            return orig(self, *a, **kw)

        h5py.Group.create_dataset = create
    else:
        real = builtins.open

        def fopen(f, mode='r', *a, **kw):
            fid = real(f, mode, *a, **kw)
            if 'w' not in mode and 'a' not in mode and '+' not in mode:
                return fid

            class F:
                def write(self, b):
                    tick()
                    fid.flush()
                    return fid.write(b)

                def __getattr__(self, x):
                    return getattr(fid, x)

                def __enter__(self):
                    return self

                def __exit__(self, *e):
                    fid.close()

            return F()

        builtins.open = fopen
    write_as(ver, mesh, wd, name)


def run(ctx):
    q = ctx.quick
    ctx.mc('Ic3Chain', dead_ok=('Harm',))
    ctx.mc('Ic3Chain', 'Ic3ChainDamage', dead_ok=('Stop',))
    damages = ctx.gen('GenDamage')
    orders = ctx.gen('Ic3Chain', 'Ic3ChainGen', workers=4)
    scen = ctx.gen('GenIc3', workers=4)
    rng, wd = ctx.rng, ctx.subdir('files')
    two = [s for s in scen if s['ver'] == 2]

    def pick(i, pool):
        return rng.choice(pool), (None if i % 2 else rng.choice(orders)), rng.randrange(1 << 30)

    jobs = []
    for i in range(40 if q else 400):
        sc, o, sd = pick(i, scen)
        jobs.append((f'cut{i}', sc, o, i % (20 if q else 5) == 0, sd, wd))
    cases = pmap(cut_case, jobs)
    jobs = []
    for i in range(24 if q else 300):
        sc, o, sd = pick(i, two if i % 3 else scen)
        jobs.append((f'dam{i}', sc, o, damages, sd, wd))
    bigd = [d for d in damages if d['what'] != 'count' and d['integrity'] and d['delta'] in (0, 1)]
    jobs.append(('big', {'ver': 2, 'big': 200000}, None, rng.sample(bigd, 6) if q else bigd, 5, wd))
    cases += pmap(damage_case, jobs)
    cases += pmap(v4_cut_case, [(f'v4-{i}', not q and i == 0, rng.randrange(1 << 30), wd) for i in range(8 if q else 60)])
    cases += pmap(stop_case, [(f'stop{i}', [2, 3, 4][i % 3], rng.randrange(1 << 30), 8 if q else 40, wd) for i in range(9 if q else 60)])
    ctx.notes['cuts'] = sum(len(e['out']) for c in cases for e in c['ev'] if e['op'] == 'cuts')
    ctx.notes['damages'] = sum(1 for c in cases for e in c['ev'] if e['op'] == 'damage')
    ctx.notes['stopped writings'] = sum(1 for c in cases for e in c['ev'] if e['op'] == 'stop')
    ctx.validate('CutTrace', cases)
    big.judge(ctx, bigger.cut_case, [(f'cut{i}-{v}', d, rng.randrange(1 << 30), wd, v, 24 if q else 200) for i, d in enumerate([(15, 15, 15), (16, 16, 16)] + ([] if q else [(41, 40, 42)])) for v in (2, 3)])
