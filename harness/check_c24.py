"""C24: information commands report what the file or mesh holds, and change nothing."""
import ast
import contextlib
import copy
import io
import logging
import os
import random
import re
import shutil
from pathlib import Path

import numpy as np

import check_c07
import cgnsfmt
import gen
import ic3fmt
import life
import mshfmt
import proj
import v4fmt
from check_c08 import axes
from common import errtxt, fbits, outcome, pmap

ASSUMPTIONS = ['coordinates are eighths and data are quarters: what is printed with three or six digits is exact',
               'names hold no line break and do not begin or end with a space',
               'the wording of the lines is that of the present reports, spaces apart: a report that cannot be read says nothing']
FMT = {'msh': 'GMSH', 'cgns': 'CGNS', 'ic3': 'IC3'}
BAD = {'kind': 'unreadable', 'lo': 0, 'hi': 0, 'n': 0}


@contextlib.contextmanager
def listen():
    """all that is printed or logged, line after line"""
    got, logger = [], logging.getLogger('cfdtools')

    class H(logging.Handler):
        def emit(self, rec):
            got.append(rec.getMessage())

    class Out(io.StringIO):
        def write(self, s):
            if not s.startswith(('INFO', 'DEBUG', 'WARNING')):
                got.append(s)
            return len(s)

    h = H()
    old = logger.level, logger.handlers[:], logging.root.manager.disable
    logging.disable(logging.NOTSET)
    logger.handlers = [h]
    logger.setLevel(logging.INFO)
    try:
        with contextlib.redirect_stdout(Out()):
            yield got
    finally:
        logger.handlers = old[1]
        logger.setLevel(old[0])
        logging.disable(old[2])


def said(f, *a):
    """(ok, value, lines)"""
    with listen() as got:
        ok, r = outcome(f, *a)
    out, cur = [], ''
    for g in got:
        if g.strip('\n') or g == '':
            out += g.split('\n')
    return ok, r, [x for x in out if x.strip()]


def milli(t):
    v = float(t) * 1000
    return int(round(v)) if abs(v) < 2 ** 31 and abs(v - round(v)) < 1e-3 else -2 ** 30 - 1


def near(t):
    v = float(t) * 1000
    return int(round(v)) if abs(v) < 2 ** 30 else 2 ** 30


def summary(t):
    t = t.strip()
    if re.search(r'empty', t):
        return {'kind': 'empty', 'lo': 0, 'hi': 0, 'n': 0}
    m = re.fullmatch(r'range (-?\d+) to (-?\d+)', t)
    if m:
        return {'kind': 'range', 'lo': int(m[1]), 'hi': int(m[2]), 'n': -1}
    m = re.fullmatch(r'list min:max:size = (-?\d+):(-?\d+):(\d+)', t)
    return {'kind': 'list', 'lo': int(m[1]), 'hi': int(m[2]), 'n': int(m[3])} if m else BAD


def report(lines):
    """the last report on a mesh among the lines"""
    r = {'nnode': -1, 'ncell': -1, 'nface': -1, 'axes': [], 'cells': [], 'faces': [], 'bocos': [], 'marks': [], 'params': []}
    at = [i for i, x in enumerate(lines) if re.match(r'nnode:', x)]
    if not at:
        return r
    where = None
    for x in lines[at[-1]:]:
        m = re.match(r'(nnode|ncell|nface):\s*(-?\d+)\s*$', x)
        if m:
            r[m[1]] = int(m[2])
            where = m[1]
            continue
        m = re.match(r'\s+([xyz]) min:avg:max\s*=\s*(\S+):(\S+):(\S+)\s*$', x)
        if m and where == 'nnode' and m[1] == 'xyz'[len(r['axes']):][:1]:
            r['axes'].append([milli(m[2]), near(m[3]), milli(m[4])])
            continue
        m = re.match(r'[\s.]*(\w+): \((\d+), (\d+)\) with index (.*)$', x)
        if m and where in ('ncell', 'nface'):
            b = {'t': m[1], 'n': int(m[2]), 'm': int(m[3]), 'ix': summary(m[4]), 'idx': [], 'els': []}
            if where == 'ncell':
                r['cells'].append(b)
            elif r['faces']:
                r['faces'][-1]['blocks'].append(b)
            continue
        m = re.match(r'\s+type (\w+):(.*)$', x)
        if m and where == 'nface':
            r['faces'].append({'kind': m[1], 'types': m[2].split(), 'blocks': []})
            continue
        m = re.match(r'[\s.]+index: (\[.*\])\s*$', x)
        if m and where == 'nface' and r['faces'] and r['faces'][-1]['blocks']:
            r['faces'][-1]['blocks'][-1]['idx'] = [int(t) for t in re.findall(r'-?\d+', re.sub(r'int\d+', '', m[1]))]
            continue
        m = re.match(r'[\s.]+faces:(.*)$', x)
        if m and where == 'nface' and r['faces'] and r['faces'][-1]['blocks']:
            r['faces'][-1]['blocks'][-1]['raw'] = m[1]
            continue
        m = re.match(r'bocos:(.*)$', x)
        if m:
            r['bocos'] = m[1].split()
            where = 'bocos'
            continue
        m = re.match(r'\s+BC (.*\S)\s+\((\w+)\):(.*)$', x)
        if m and where == 'bocos':
            r['marks'].append({'name': m[1], 'geodim': m[2], 'ix': summary(m[3])})
            continue
        m = re.match(r'params:\s*\{(.*)\}\s*$', x)
        if m:
            r['params'] = re.findall(r"'([^']*)': (?:np\.\w+\()?-?[\d.]", m[1])
            break
        if where == 'nface' and re.match(r'[\s\d\[\]]+$', x) and r['faces'] and r['faces'][-1]['blocks'] and 'raw' in r['faces'][-1]['blocks'][-1]:
            r['faces'][-1]['blocks'][-1]['raw'] += ' ' + x
    for f in r['faces']:
        for b in f['blocks']:
            raw = b.pop('raw', '')
            v = [int(t) for t in re.findall(r'-?\d+', raw)]
            if raw and '...' not in raw:
                b['els'] = [v[i:i + b['m']] for i in range(0, len(v), b['m'])] or [[-1]]
    return r


NUM = r'([+-]\d\.\d{5}e[+-]\d+)'


def stats(lines):
    res = []
    for x in lines:
        m = re.match(r'\s+(.*?)\s*:\s+' + NUM + ' / ' + NUM + ' / ' + NUM + r' \(min/mean/max\)', x)
        if m:
            res.append([m[1], milli(m[2]), near(m[3]), milli(m[4])])
    return res


def headers(lines):
    res, cur = [], None
    for x in lines:
        if x.startswith('> Header'):
            cur = {'name': '', 'id': '', 'kinds': [], 'hsize': '', 'skip': '', 'idata': [], 'rdata': [], 'end': False}
            res.append(cur)
        m = re.match(r'(Name|Id|hsize|skip|idata|rdata)\s*:(.*)$', x)
        if not m or cur is None:
            continue
        k, v = m[1], m[2].strip()
        if k == 'Name':
            cur['name'] = v
        elif k == 'Id':
            n = re.match(r'\[(-?\d+)\] (\[.*\])', v)
            cur['id'], cur['kinds'] = (n[1], [t.replace('UGP_IO_', '') for t in ast.literal_eval(n[2])]) if n else ('', [])
            cur['end'] = 'EOF' in cur['kinds']
        elif k == 'rdata':
            cur[k] = [fbits(float(re.sub(r'np\.\w+\(|\)', '', t))) for t in v.strip('()').split(', ')]
        elif k == 'idata':
            cur[k] = [re.sub(r'np\.\w+\(|\)', '', t) for t in v.strip('()').split(', ')]
        else:
            cur[k] = v
    return res


# ------------------------------------------------------------------ what there is
def eighths(a):
    q = np.asarray(a, dtype=float) * 8
    assert np.all(q == np.round(q)), 'coordinates are not eighths'
    return [[int(v) for v in p] for p in q]


def small(gm, rng, wide=False):
    """coordinates in eighths"""
    a = np.array(gm.coords, dtype=float)
    a = a[:, list(rng.choice([(0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2)]))]
    k = rng.choice([1, 0.125, 0.25, 2])
    return a * k + np.array([rng.choice([0, 0, -3, 100 if wide else 1]) * 0.125 for _ in range(3)])


def quarters(n, rng, wide=False):
    c = 600 if wide else 40
    k = rng.choice(['any', 'any', 'const', 'one'])
    v = [rng.randint(-c, c) for _ in range(n)]
    if k == 'const':
        v = [v[0]] * n
    elif k == 'one':
        v = [v[0]] * n
        v[rng.randrange(n)] += 7
    return v


def content(sc, rng, wide):
    """content of a file made by hand; data in quarters are kept aside"""
    s = {'no': sc['no'], 'fa': sc['fa'], 'cv': sc['cv'], 'kinds': [], 'ndof': 1}
    m = life.fabricated(s, rng)
    m['xyz'] = [[rng.randint(-40, 40) / 8 for _ in range(3)] for _ in range(sc['no'])]
    facts = []
    nd = sc['ndof'] if sc['ver'] == 3 else 1
    names = ['P', 'T_RMS', 'my field', 'U', 'RHO', 'phi-0', 'name that is quite long for one column', 'P']
    m['fields'] = []
    for i, kd in enumerate(k for k in sc['kinds'] if sc['ver'] == 3 or not k.endswith('II1')):
        w = 3 if kd.endswith('D3') else 9 if kd.endswith('D33') else 1
        n = sc['no'] if kd.startswith('NO') else sc['cv'] * nd
        nm = names[i] if rng.random() < 0.6 else rng.choice(names) + f'_{i}'
        q = quarters(n * w, rng, wide)
        if kd.endswith('II1'):
            q = [4 * (v // 4) for v in q]
            m['fields'].append((kd, nm, nd, [v // 4 for v in q]))
        else:
            m['fields'].append((kd, nm, nd, [v / 4 for v in q]))
        if w == 3:
            facts += [[f'{nm}-{c}', q[c::3]] for c in range(3)]
        else:
            facts.append([nm, q])
    return m, facts


def zones_of(zs):
    return [{'name': z[0], 'index': list(range(z[2], z[3] + 1))} for z in zs]


def counts(sizes):
    return sorted([{3: 'tri3', 4: 'quad4'}[k], sizes.count(k)] for k in set(sizes))


def ic3_facts(b):
    """what a file of version 2 or 3 holds"""
    import struct

    en, _, _, secs, _, _ = ic3fmt.raw_sections(b)
    f = {'pts': [], 'ncell': 0, 'types': [], 'faces': [], 'marks': [], 'fields': [], 'no': [], 'cv': []}
    for _, name, sid, _, i, r, data in secs:
        k = ic3fmt.IDS.get(sid)
        if k == 'COUNTS':
            f['ncell'] = i[2]
        elif k == 'NOOFA':
            f['faces'] = counts(list(struct.unpack(f'{en}{i[0]}i', data[:4 * i[0]])))
        elif k == 'X_NO':
            f['pts'] = eighths(np.array(struct.unpack(f'{en}{3 * i[0]}d', data)).reshape(-1, 3))
        elif k and k[:3] in ('NO_', 'CV_') and k[3:] in ('D1', 'D3', 'D33', 'II1'):
            f[k[:2].lower()].append(name.split(b'\0')[0].decode())
        elif k == 'FA_ZONE':
            f['marks'].append({'name': name.split(b'\0')[0].decode(), 'index': list(range(i[1], i[2] + 1))})
    return f


def field_facts(nd, cd):
    res = []
    for d in (nd, cd):
        for n, v in d.items():
            q = np.asarray(v)
            if q.ndim == 2 and q.shape[1] == 3:
                res += [[f'{n}-{c}', [int(t) for t in q[:, c] * 4]] for c in range(3)]
            else:
                res.append([n, [int(t) for t in q.ravel() * 4]])
    return res


class World:
    def __init__(self, wd, cid, sc, rng):
        self.sc, self.rng, self.root = sc, rng, os.path.join(wd, cid)
        self.cwd = os.path.join(self.root, 'work')
        os.makedirs(os.path.join(self.cwd, 'sub'))
        self.ev = []

    def snap(self):
        s = check_c07.snap(self.root)
        return s, {x[0]: check_c07.stamp(os.path.join(self.root, x[0])) for x in s if x[1] == 'file'}

    def command(self, f, argv):
        """runs it (twice); what is said, and the trace it leaves on the disk"""
        before, stamps = self.snap()
        ok, r, lines = said(f, argv)
        ok2, r2, again = said(f, argv)
        after = check_c07.snap(self.root)
        e = {'exc': '' if ok else errtxt(r), 'ret': str(r) if ok else '', 'new': [x[0] for x in after if x not in before],
             'same': all(x in after for x in before) and all(check_c07.stamp(os.path.join(self.root, p)) == s for p, s in stamps.items())}
        return e, lines, again

    def argv(self, path, kind, ext):
        sc, rng = self.sc, self.rng
        p = path if rng.random() < 0.3 else os.path.relpath(path, self.cwd)
        o = []
        if sc.get('fmt') or not p.endswith(ext):
            o.append(['--fmt', FMT[kind]])
        if sc.get('check') and sc['what'] != 'conv':
            o.append(['--check'])
        if sc.get('log'):
            o.append(['--log', rng.choice(['info', 'debug'])])
        rng.shuffle(o)
        o = sum(o, [])
        return o + [p] if rng.random() < 0.5 else [p] + o

    # -------------------------------------------------------------- files
    def write(self):
        """writes the input; (path, kind, extension, facts, whether statistics are printed)"""
        sc, rng = self.sc, self.rng
        src, wide = sc['src'], sc['wide'] == 'large'
        kind = 'ic3' if src in ('fab', 'life') else 'h5' if src == 'v4' else 'cgns' if 'cgns' in src else 'msh'
        ext = {'ic3': '.ic3', 'h5': '.h5', 'cgns': '.cgns', 'msh': '.msh'}[kind]
        stem = 'mesh' if sc['name'] == 'noext' else sc['name']
        path = os.path.join(self.cwd, rng.choice(['', 'sub']), stem + ('' if sc['name'] == 'noext' else ext))
        if kind == 'ic3':
            b, fields = self.restart(src, wide)
            Path(path).write_bytes(b)
            return path, kind, ext, {**ic3_facts(b), 'fields': fields}, True
        if kind == 'h5':
            m, _ = content({**sc, 'kinds': []}, rng, wide)
            n, facts, sol = sc['cv'], [], {'cons': [], 'stats': []}
            for where, k, c in (('cons', 'rho', 1), ('cons', 'rhou', 3), ('cons', 'rhoe', 1), ('stats', 'p_avg', 1), ('stats', 'u_rey', 9), ('stats', 'u_rms', 3)):
                if rng.random() < 0.6:
                    q = quarters(n * c, rng, wide)
                    sol[where].append((k, [v / 4 for v in q]))
                    facts += [[k.upper(), q]] if c == 1 else [[f'{k.upper()}-{j}', q[j::c]] for j in range(c)]
            m['cons'], m['stats'] = sol['cons'], sol['stats'] or None
            v4fmt.fabricate(path, path + '_s' if facts else None, m, rng)
            return path, kind, ext, {'pts': eighths(m['xyz']), 'ncell': m['ncell'], 'types': [], 'faces': counts([len(f[0]) for f in m['faces']]),
                                     'marks': zones_of(m['zones']), 'fields': facts}, True
        return (path, kind, ext) + self.cells(src, path, wide) + (False,)

    def restart(self, src, wide):
        sc, rng = self.sc, self.rng
        if src == 'fab':
            m, facts = content(sc, rng, wide)
            b = ic3fmt.fabricate(sc['ver'], rng.choice('<>'), m)
            if sc.get('perm', 'none') != 'none' or rng.random() < 0.2:
                b = life.permute(b, sc['perm'] if sc.get('perm', 'none') != 'none' else rng.choice(['foreign', 'permuted']), rng)
            return b, facts
        gm = life.make_gm(rng.choice(['hexa', 'prism', 'small', 'mixed']), rng)
        mesh, _ = proj.build_mesh(gm, rng, 'default', small(gm, rng, wide))
        nd, cd = {}, {}
        for i, k in enumerate(sc['kinds']):
            if k.endswith('II1'):
                continue
            d, n = (nd, gm.nnode) if k.startswith('NO') else (cd, gm.ncell)
            sh = (n, 3) if k.endswith('D3') else (n, 3, 3) if k.endswith('D33') else (n,)
            d[f'f{i}' if rng.random() < 0.8 else 'same'] = np.array(quarters(int(np.prod(sh)), rng, wide)).reshape(sh) / 4
        life.set_fields(mesh, nd, cd, 1)
        mesh.set_params(life.make_state(rng.choice(['none', 'state', 'wgt']), rng))
        mk = life.Marker(gm, rng)
        for _ in range(sc['npatch']):
            life.add_mark(mesh, mk, {'kind': 'node', 'rel': rng.choice(['some', 'free', 'side']), 'type': 'boundary', 'name': rng.choice(['plain', 'space', 'long'])}, rng)
        p = os.path.join(self.root, 'made')
        life.writer_of(sc['ver'])(mesh, endian=rng.choice(['native', 'little', 'big'])).write_data(p)
        b = Path(p).read_bytes()
        os.remove(p)
        return b, field_facts(nd, cd)

    def cells(self, src, path, wide):
        sc, rng = self.sc, self.rng
        plane = src.startswith('plane')
        if plane:
            d = rng.choice([(1, 1), (2, 1), (2, 2), (3, 1), (3, 2)])
            gm = gen.plane_mesh(d[0], d[1], [rng.choice(['Q', 'Q', 'T0', 'T1']) for _ in range(d[0] * d[1])]).shuffled(rng)
            xyz = np.array(gm.coords, dtype=float)[:, list(axes(rng))] / rng.choice([1, 8])
        else:
            gm = life.make_gm(rng.choice(['tetra1', 'prism1', 'hexa', 'prism', 'small', 'mixed']), rng)
            xyz = small(gm, rng, wide)
        names, walk, marks, mk = ['wall', 'in let', 'w 2', 'out'], {frozenset(w): list(w) for w in gm.boundary()}, [], life.Marker(gm, rng)
        for k in range(sc['npatch']):
            ws = mk.choose('rest' if sc['cover'] == 'all' and k == sc['npatch'] - 1 else rng.choice(['some', 'free', 'side']), 'node')
            if plane:
                ws = sorted(ws, key=sorted)
                while ws and any(set(nd) <= set().union(*ws) for _, nd in gm.cells):
                    ws.pop()
            mk.claimed |= mk.closure(set().union(*ws))
            if ws:
                marks.append((names[k], [walk[f] for f in ws]))
        pts = [tuple(float(v) for v in p) for p in xyz.tolist()]
        gm.coords = pts
        if 'cgns' in src:
            secs, first, bcs = [], 1, []
            for t in sorted({et for et, _ in gm.cells}):
                conn = [[n + 1 for n in nd] for et, nd in gm.cells if et == t]
                secs.append({'name': f'vol {t}', 'type': t, 'first': first, 'conn': conn})
                first += len(conn)
            for n, ws in marks:
                a = first
                for t in sorted({gen.FT[len(w)] for w in ws}):
                    conn = [[v + 1 for v in w] for w in ws if gen.FT[len(w)] == t]
                    secs.append({'name': f'{n} {t}', 'type': t, 'first': first, 'conn': conn})
                    first += len(conn)
                bcs.append({'name': n, 'kind': 'BCWall', 'how': 'list', 'loc': 'FaceCenter', 'index': list(range(a, first))})
            cgnsfmt.write(path, [{'name': 'Base', 'cell_dim': gm.dim, 'zones': [{'name': 'Zone', 'coords': pts, 'ncell': gm.ncell, 'sections': secs, 'bcs': bcs}]}])
        elif src.endswith('22'):
            Path(path).write_text(mshfmt.simple(gm, marks))
        else:
            dim, k = gm.dim, len(marks)
            nm = {(dim - 1, i + 1): n for i, (n, _) in enumerate(marks)}
            nm[dim, k + 1] = 'fluid'
            eb = [(t, i + 1, [w for w in ws if gen.FT[len(w)] == t]) for i, (_, ws) in enumerate(marks) for t in sorted({gen.FT[len(w)] for w in ws})]
            eb += [(t, 1, [nd for et, nd in gm.cells if et == t]) for t in sorted({et for et, _ in gm.cells})]
            phys = {(dim - 1, i + 1): [i + 1] for i in range(k)}
            phys[dim, 1] = [k + 1]
            Path(path).write_text(mshfmt.v41(pts, nm, list(range(1, len(pts) + 1)), [(dim, 1, False, list(range(len(pts))))], eb, phys))
        self.plane = plane
        ts = [et for et, _ in gm.cells]
        return ({'pts': eighths(pts), 'ncell': gm.ncell, 'types': sorted([t, ts.count(t)] for t in set(ts)), 'faces': [], 'fields': [],
                 'marks': [{'name': n, 'index': sorted({v for w in ws for v in w})} for n, ws in marks]},)

    @staticmethod
    def v4(path):
        import cfdtools.ic3.readerV4 as r4

        r = r4.reader(path, path + '_s') if os.path.exists(path + '_s') else r4.reader(path)
        r.read_data()
        r.export_mesh().printinfo()
        return True

    def file(self):
        import cfdtools._cli as cli

        path, kind, ext, facts, withstats = self.write()
        if kind == 'h5':  # no command reads it
            e, lines, again = self.command(self.v4, path)
        else:
            e, lines, again = self.command(cli.cfdinfo, self.argv(path, kind, ext))
        e.update(op='file', f=facts, r=report(lines), lines=stats(lines), stats=withstats, twice=report(again) == report(lines) and stats(again) == stats(lines))
        self.ev.append(e)

    def secs(self):
        import cfdtools._cli as cli

        path, kind, ext, _, _ = self.write()
        e, lines, again = self.command(cli.ic3brief, [path if self.rng.random() < 0.3 else os.path.relpath(path, self.cwd)])
        en, _, _, secs, _, _ = ic3fmt.raw_sections(Path(path).read_bytes())
        file = [{'name': s[1].split(b'\0')[0].decode().strip(), 'id': str(s[2]), 'kind': {'COUNTS': 'NO_FA_CV_NOOFA_COUNTS'}.get(ic3fmt.IDS.get(s[2]), ''),
                 'skip': str(s[3]), 'hsize': '256', 'idata': [str(v) for v in s[4]], 'rdata': [fbits(v) for v in s[5]], 'end': s[2] == ic3fmt.CODE['EOF']} for s in secs]
        out = headers(lines)
        known = {str(k) for k in ic3fmt.IDS}
        e.update(op='secs', file=[s for s in file if s['id'] in known], out=out, twice=headers(again) == out)
        self.ev.append(e)

    def grid(self):
        import cfdtools._cli as cli
        import pyvista as pv

        sc, rng = self.sc, self.rng
        if sc['mesh'] == 'plane':
            gm = gen.plane_mesh(2, 2, [rng.choice(['Q', 'T0', 'T1']) for _ in range(4)]).shuffled(rng)
        else:
            gm = life.make_gm(sc['mesh'], rng)
        from check_c12 import VTK
        xyz = small(gm, rng)
        flat = []
        for et, nd in gm.cells:
            flat += [len(nd)] + list(nd)
        g = pv.UnstructuredGrid(np.array(flat), np.array([VTK[et] for et, _ in gm.cells]), xyz)
        conv = {'float64': np.float64, 'float32': np.float32, 'int': np.int64}[sc['kind']]
        names = rng.sample(['rho', 'U', 'T rms', 'p_avg', 'x'], 5)
        cell, point, field = names[:sc['ncd']], names[1:1 + sc['npd']], ['TimeValue', 'meta'][:sc['nfd']]
        for n in cell:
            g.cell_data[n] = np.zeros((gm.ncell,) + rng.choice([(), (3,)]), dtype=conv)
        for n in point:
            g.point_data[n] = np.zeros((gm.nnode,) + rng.choice([(), (3,)]), dtype=conv)
        for n in field:
            g.field_data[n] = np.array([1.5])
        path = os.path.join(self.cwd, 'grid' + sc['ext'])
        g.save(path)
        e, lines, again = self.command(cli.vtkbrief, ['grid' + sc['ext']])
        r = self.brief(lines)
        e.update(op='grid', r=r, twice=self.brief(again) == r,
                 g={'ncell': gm.ncell, 'pts': eighths(xyz), 'cell': sorted(cell), 'point': sorted(point), 'field': sorted(field)})
        self.ev.append(e)

    @staticmethod
    def brief(lines):
        r = {'ncell': -1, 'nnode': -1, 'bounds': [], 'cell': ['?'], 'point': ['?'], 'field': ['?']}
        for x in lines:
            m = re.match(r'\s+(ncells|npoints)\s*:\s*(\d+)', x)
            if m:
                r[{'ncells': 'ncell', 'npoints': 'nnode'}[m[1]]] = int(m[2])
            m = re.match(r'\s+([XYZ]) bounds:\s*(\S+) - (\S+)\s*$', x)
            if m and m[1] == 'XYZ'[len(r['bounds']):][:1]:
                r['bounds'].append([milli(re.sub(r'np\.\w+\(|\)', '', t)) for t in (m[2], m[3])])
            m = re.match(r'\s+(cell|point|field)\s+data names:\s*(\[.*\])', x)
            if m:
                r[m[1]] = sorted(ast.literal_eval(m[2]))
        return r

    @staticmethod
    def removed(lines):
        e = {'told': [], 'written': '', 'total': []}
        for x in lines:
            m = re.match(r'\s+(pop|cannot find) (cell|node) data (.*)$', x)
            if m:
                e['told'].append([m[2], m[3], m[1] == 'pop'])
            m = re.match(r'file (.*) written$', x)
            if m:
                e['written'] = m[1]
            m = re.match(r'> extrusion .*?(\d+) total cells', x)
            if m:
                e['total'] = [int(m[1])]
        return e

    def conv(self):
        import cfdtools._cli as cli
        import pyvista as pv

        sc, rng = self.sc, self.rng
        self.plane = False
        path, kind, ext, facts, _ = self.write()
        cmd = sc['cmd']
        if kind == 'ic3' and cmd == 'vtk' or kind == 'ic3' and sc['ndof'] > 1:
            cmd = 'ic3v3'
        opts = ['--info']
        if self.plane:
            opts += ['--extrude', str(sc['nz'])]
        if sc['scale'] == 'any':
            opts += ['--scale'] + [str(rng.choice([1, 2, 3, 4, -1, 0])) for _ in range(3)]
        cell, node = facts.get('cv', []), facts.get('no', [])
        rm = []
        for where, what in sc['rm']:
            here, other = (cell, node) if where == 'cell' else (node, cell)
            pool = {'here': here, 'other': other, 'again': [x[1] for x in rm if x[0] == where], 'absent': []}[what] or ['nothing']
            rm.append((where, rng.choice(pool)))
        rm = [x for x in rm if x[0] == 'cell'] + [x for x in rm if x[0] == 'node']
        gone = []
        for where in ('cell', 'node'):
            if [x for x in rm if x[0] == where]:
                gone += [f'--remove-{where}-data'] + [x[1] for x in rm if x[0] == where]
        if sc['taken']:
            Path(self.cwd, os.path.splitext(os.path.basename(path))[0] + ('.vtu' if cmd == 'vtk' else '.ic3')).touch()
        f = {'ic3v2': cli.cfdwrite_ic3v2, 'ic3v3': cli.cfdwrite_ic3v3, 'vtk': cli.cfdwrite_vtk}[cmd]
        ok, ret, lines = said(f, gone + opts + self.argv(path, kind, ext))
        e = {'op': 'conv', 'exc': '' if ok else errtxt(ret), 'r': report(lines), 'pts': [], 'ncell': 0, 'asked': rm, 'cell': cell, 'node': node, 'made': str(ret), **self.removed(lines)}
        self.ev.append(e)
        if not ok:
            return
        out = os.path.join(self.cwd, ret)
        if cmd == 'vtk':
            g = pv.read(out)
            e['pts'], e['ncell'] = eighths(np.asarray(g.points, dtype=float)), int(g.n_cells)
        else:
            h = ic3_facts(Path(out).read_bytes())
            e['pts'], e['ncell'] = h['pts'], h['ncell']

    def refuse(self):
        import cfdtools._cli as cli

        sc, rng = self.sc, self.rng
        f = {'info': cli.cfdinfo, 'ic3brief': cli.ic3brief, 'vtkbrief': cli.vtkbrief}[sc['cmd']]
        ext = {'info': rng.choice(['.ic3', '.msh', '.cgns', '.vtu']), 'ic3brief': '.ic3', 'vtkbrief': '.vtu'}[sc['cmd']]
        p = 'mesh' + ext
        if sc['how'] == 'missing':
            argv = [p]
        elif sc['how'] == 'empty' and sc['cmd'] != 'vtkbrief':
            argv = [p]
            Path(self.cwd, p).write_bytes(b'')
        elif sc['how'] == 'extension' and sc['cmd'] == 'info':
            argv = ['mesh.txt']
            Path(self.cwd, 'mesh.txt').write_text('1 2 3\n')
        else:
            argv = [p, '--fmt', rng.choice(['NOFMT', 'ic4'])]
            Path(self.cwd, p).write_text('')
        with contextlib.redirect_stderr(io.StringIO()):
            e, _, _ = self.command(f, argv)
        e['op'] = 'refuse'
        self.ev.append(e)

    # -------------------------------------------------------------- meshes
    def mesh(self):
        sc, rng = self.sc, self.rng
        if sc['mesh'] == 'plane':
            d = rng.choice([(1, 1), (2, 1), (2, 2), (3, 2)])
            gm = gen.plane_mesh(d[0], d[1], [rng.choice(['Q', 'Q', 'T0', 'T1']) for _ in range(d[0] * d[1])]).shuffled(rng)
        else:
            gm = life.make_gm(sc['mesh'], rng)
        m, _ = proj.build_mesh(gm, rng, 'explicit' if sc['mode'] == 'random' else sc['mode'], small(gm, rng))
        self.m = m
        if sc['params'] == 'some':
            m.set_params({'step': 4, 'dt': 0.5})
        n = 0
        if not self.tell():
            return
        for op in sc['ops']:
            if op == 'mark':
                has = 'boundary' in m._faces
                g = rng.choice(['node', 'bdnode'] + ['bdface', 'face'] * 2 * has)
                top = len(m._faces['boundary']['face2node'].all_index()) if g.endswith('face') else gm.nnode
                a = rng.randrange(top)
                idx = list(range(a, rng.randint(a + 1, top))) if rng.random() < 0.5 else rng.sample(range(top), rng.randrange(0, top + 1))
                n += 1
                proj.add_mark(m, rng.choice(['w', 'in let', 'wall no', 'a name of some length', 'x(y)']) + f' {n}', g, idx, 'boundary', None, as_range=rng.random() < 0.6)
            elif op == 'drop' and m._bocos:
                m.remove_boco(rng.choice(list(m._bocos)))
            elif op == 'derive' and sc['mesh'] != 'plane':
                m.make_face_connectivity()
            elif op == 'convert' and 'boundary' in m._faces:
                outcome(m.bocomarks_set_node_to_face)
            elif op == 'prepare' and 'boundary' in m._faces:
                outcome(m.reindex_boundaryfaces)
            elif op == 'unmarked' and 'boundary' in m._faces:
                outcome(m.make_unmarked_BC)
            elif op == 'mixed' and sc['mesh'] != 'extruded':
                import cfdtools.meshbase._connectivity as conn

                c, k = conn.elem_connectivity(), 0
                for t in rng.sample(['tri3', 'quad4'], rng.randint(1, 2)):
                    f = [rng.sample(range(gm.nnode), gen.NN[t]) for _ in range(rng.randint(1, 5)) if gm.nnode >= 4]
                    if f:
                        c.add_elems(t, np.array(f), conn.indexlist(ilist=list(range(k, k + len(f)))))
                        k += len(f)
                if k:
                    m.add_faces('mixed', c, conn.indexindirection(np.array([[0, -1]] * k)))
            elif op == 'popfaces' and m._faces and rng.random() < 0.4:
                m.pop_faces(rng.choice(list(m._faces)))
            elif op == 'scale':
                m.scale([rng.choice([1, 2, -1, 0.5 if n < 0 else 3]) for _ in range(3)])
            elif op == 'param':
                m.update_params({rng.choice(['step', 'time', 'other']): rng.choice([1, 2.5])})
            elif op == 'extrude' and sc['mesh'] == 'plane' and not m._faces and all(b.geodim in ('node', 'bdnode') for b in m._bocos.values()):
                ok, r = outcome(lambda: m.export_extruded(extrude=np.arange(rng.choice([2, 3, 4])) / rng.choice([1, 2, 8])))
                if ok:
                    self.m = m = r
                    gm = gen.GM([(0, 0, 0)] * m.nnode, [], 3, 'x')
                    sc = {**sc, 'mesh': 'extruded'}
                else:
                    continue
            else:
                continue
            if not self.tell():
                return

    def tell(self):
        m = self.m

        def state():
            s = proj.p_mesh(m)
            for x in s['marks']:
                x['words'] = x['name'].split()
            s['params'] = [str(k) for k in m._params]
            return s

        before = state()
        det = self.sc['detailed']
        call = (lambda: m.printinfo(detailed=True)) if det else m.printinfo
        ok, r, lines = said(call)
        _, _, again = said(call)
        self.ev.append({'op': 'mesh', 'exc': '' if ok else errtxt(r), 'm': before, 'pts': eighths(m.nodescoord(ndarray=True)), 'r': report(lines),
                        'twice': again == lines, 'kept': state() == before})
        return ok


def case(job):
    import cfdtools._cli  # noqa: F401

    cid, sc, seed, wd = job
    w = World(wd, cid, sc, random.Random(seed))
    old = os.getcwd()
    os.chdir(w.cwd)
    try:
        getattr(w, sc['what'])()
    finally:
        os.chdir(old)
        shutil.rmtree(w.root)
    return {'id': cid, 'ev': w.ev}


def run(ctx):
    q = ctx.quick
    ctx.mc('InfoBox', None if q else 'InfoBoxBig')
    scen = ctx.gen('GenInfo', simulate=(900 if q else 9000, 3))
    wd = ctx.subdir('info')
    cases = pmap(case, [(f'i{i}', s, ctx.rng.randrange(1 << 30), wd) for i, s in enumerate(scen)])
    ctx.notes['reports'] = sum(len(c['ev']) for c in cases)
    ctx.validate('InfoTrace', cases)
