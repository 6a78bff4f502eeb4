"""C19: the format used is determined by name or extension, uniquely or refused."""
import contextlib
import io
import os
import random

import cgnsfmt
import gen
import ic3fmt
import life
import mshfmt
from common import errtxt, fbits, outcome, pmap

ASSUMPTIONS = ['a format name is registered with one extension', 'a format that can only be written may be refused by --fmt, which offers formats that can be read',
               'the versions 2.2 and 4.1 of GMSH, 2 and 3 of IC3, in ASCII / either byte order']
EXT = {'A': '.x', 'B': '.x', 'C': '.y', 'GMSH': '.msh', 'VTK': '.vtu'}
CELLS = {'1': (3, 1, 1), '2': (5, 1, 1), '3': (7, 1, 1), '4': (11, 1, 1)}  # the mesh of each stub reader


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return outcome(f, *a)


def stubs(token, log):
    import cfdtools.meshbase.simple as simple

    class StubReader:
        def __init__(self, filename, cIntegrity=False):
            log['made'].append(token)
            self.ncell = CELLS[token][0]

        def read_data(self):
            log['used'].append(token)

        def export_mesh(self):
            return simple.Cube(*CELLS[token]).export_mesh()

    class StubWriter:
        def __init__(self, mesh):
            log['writer'] = token

        def write_data(self, filename):
            with open(filename, 'w') as f:
                f.write('written by ' + token)

    return StubReader, StubWriter


def files(d):
    return sorted(os.path.relpath(os.path.join(a, x), d) for a, _, b in os.walk(d) for x in b)


def registry(job):
    """one process: registrations, then commands"""
    cid, hist, queries, root = job
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            import json

            res = registry_child(cid, hist, queries, root)
            with open(os.path.join(root, cid + '.json'), 'w') as f:
                json.dump(res, f)
            code = 0
        except BaseException:
            import traceback

            traceback.print_exc()
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    if st != 0:
        raise RuntimeError(f'case {cid} did not end')
    import json

    with open(os.path.join(root, cid + '.json')) as f:
        return json.load(f)


def registry_child(cid, hist, queries, root):
    import cfdtools._cli as cli
    import cfdtools.api as api
    import cfdtools.gmsh

    d = os.path.join(root, cid)
    os.makedirs(d)
    os.chdir(d)
    log = {}
    for kind, name, token in hist:
        log.update(made=[], used=[])
        r, w = stubs(token, log)
        if kind == 'reader':
            api.fileformat_reader(name, EXT[name])(r)
        else:
            api.fileformat_writer(name, EXT[name])(w)
    gm = gen.lattice_mesh((2, 1, 1), ['H', 'H'])
    text = mshfmt.simple(gm, [('side', gm.boundary())])
    src = {2: 'gmsh', **{v[0]: k for k, v in CELLS.items()}}
    cmds = {'info': cli.cfdinfo, 'ic3v2': cli.cfdwrite_ic3v2, 'ic3v3': cli.cfdwrite_ic3v3, 'cube': cli.cfdwritecube}
    ev = []
    for k, (cmd, fmt, ext) in enumerate(queries):
        q = os.path.join(d, f'q{k}')
        os.makedirs(os.path.join(q, 'in'))
        os.chdir(q)
        inp = os.path.join('in', 'file' + ext)
        if cmd != 'cube':
            with open(inp, 'w') as f:
                f.write(text)
        before = files(q)
        log.update(made=[], used=[], writer='')
        argv = [inp] + (['--fmt', fmt] if fmt else []) + (['--nx', '4', '--ny', '1', '--nz', '1'] if cmd == 'cube' else [])
        ok, ret = quiet(cmds[cmd], argv)
        after = files(q)
        new = [f for f in after if f not in before]
        e = {'op': 'use', 'cmd': cmd, 'fmt': fmt, 'ext': '.' + ext.rsplit('.', 1)[1] if ext.strip('.') else '', 'exc': '' if ok else errtxt(ret), 'used': list(log['used']), 'source': '',
             'writer': log['writer'], 'files': len(new)}
        if len(new) == 1 and cmd in ('ic3v2', 'ic3v3'):
            e['source'] = src.get(counts(os.path.join(q, new[0]))[1], '?')
            if e['source'] == 'gmsh':
                e['used'].append('gmsh')
        elif cmd == 'info' and ok and not log['used']:
            e['used'].append('gmsh')  # the only real reader of these suffixes
        elif cmd == 'cube' and len(new) == 1 and not log['writer']:
            with open(os.path.join(q, new[0]), 'rb') as f:
                e['writer'] = 'vtk' if b'<VTKFile' in f.read(300) else '?'
        ev.append(e)
    os.chdir(root)
    return {'id': cid, 'hist': hist, 'ev': ev}


def counts(path):
    """nodes, cells, coordinates of an IC3 file"""
    import struct

    with open(path, 'rb') as f:
        en, _, _, secs, _, err = ic3fmt.raw_sections(f.read())
    no = cv = 0
    xyz = []
    for s in secs:
        if s[2] == 10:
            no, _, cv, _ = s[4][:4]
        elif s[2] == 31:
            xyz = [fbits(v) for v in struct.unpack(en + 'd' * (len(s[6]) // 8), s[6])]
    return [no, cv, xyz]


def known(job):
    """a real file of each version, under a usual or unusual name"""
    cid, fmt, ver, ext, byname, cmd, seed, root = job
    import cfdtools._cli as cli

    rng = random.Random(seed)
    d = os.path.join(root, cid)
    os.makedirs(d)
    os.chdir(d)
    name = rng.choice(['file', 'my.file', 'x(1)', 'v4']) + ext
    if fmt == 'IC3':
        m = life.fabricated({'no': 6, 'fa': 5, 'cv': 2, 'kinds': ['CV_D1'], 'ndof': 1}, rng)
        with open(name, 'wb') as f:
            f.write(ic3fmt.fabricate(ver[0], ver[1], m))
        want = [m['nnode'], m['ncell'], [fbits(v) for p in m['xyz'] for v in p]]
    else:
        gm = life.make_gm(rng.choice(['hexa', 'small']), rng) if fmt == 'GMSH' else gen.lattice_mesh((2, 1, 1), ['H', 'H'])
        xyz = [tuple(map(float, c)) for c in gm.coords]
        want = [gm.nnode, gm.ncell, [fbits(v) for p in xyz for v in p]]
        if fmt == 'CGNS':
            cgnsfmt.write(name, [{'name': 'Base', 'cell_dim': 3, 'zones': [{'name': 'Zone', 'coords': xyz, 'ncell': gm.ncell, 'bcs': [],
                          'sections': [{'name': 'Elem', 'type': 'hexa8', 'first': 1, 'conn': [[n + 1 for n in nd] for _, nd in gm.cells]}]}]}])
        elif ver[0] == 2:
            with open(name, 'w') as f:
                f.write(mshfmt.simple(gm, [('side', gm.boundary())]))
        else:
            by = {}
            for et, nd in gm.cells:
                by.setdefault((et, 1), []).append(nd)
            fb = {}
            for w in gm.boundary():
                fb.setdefault((gen.FT[len(w)], 1), []).append(list(w))
            eb = [(t, e, lst) for (t, e), lst in list(fb.items()) + list(by.items())]
            ent = rng.random() < 0.6  # without any group the table of entities may be absent
            with open(name, 'w') as f:
                f.write(mshfmt.v41(xyz, {(2, 1): 'side', (3, 2): 'fluid'} if ent else {}, list(range(1, gm.nnode + 1)),
                                   [(3, 1, False, list(range(gm.nnode)))], eb, {(2, 1): [1], (3, 1): [2]}, (), ent))
    if cmd == 'cube':
        n = [rng.randrange(1, 4) for _ in range(3)]
        os.remove(name)
        ok, r = quiet(cli.cfdwritecube, [name] + (['--fmt', fmt] if byname else []) + [a for k in range(3) for a in ('--n' + 'xyz'[k], str(n[k]))])
        if ok:
            ok, r = outcome(counts, name)
        os.chdir(root)
        e = {'op': 'known', 'cmd': cmd, 'fmt': fmt, 'ver': '', 'want': [(n[0] + 1) * (n[1] + 1) * (n[2] + 1), n[0] * n[1] * n[2]], 'got': r[:2] if ok else [],
             'exc': '' if ok else errtxt(r)}
        return {'id': cid, 'hist': [], 'ev': [e]}
    argv = [name] + (['--fmt', fmt] if byname else []) + (['--check'] if rng.random() < 0.4 else [])
    os.mkdir('out')
    e = {'op': 'known', 'cmd': cmd, 'fmt': fmt, 'ver': str(ver), 'want': want, 'got': want}
    if cmd == 'info':
        ok, r = quiet(cli.cfdinfo, argv)
    else:
        ok, r = quiet({'ic3v2': cli.cfdwrite_ic3v2, 'ic3v3': cli.cfdwrite_ic3v3}[cmd], argv + ['--outpath', 'out'])
        if ok:
            ok, r = outcome(counts, r)
            e['got'] = r if ok else []
    e['exc'] = '' if ok else errtxt(r)
    os.chdir(root)
    return {'id': cid, 'hist': [], 'ev': [e]}


def run(ctx):
    import cfdtools._cli  # noqa: F401  imported before the processes are made

    ctx.mc('FormatMap', 'FormatMap' if ctx.quick else 'FormatMapBig')
    hists = ctx.gen('FormatMap', 'FormatGen')
    rng = ctx.rng
    short = [h for h in hists if len(h) <= 2]
    long = [h for h in hists if len(h) == 3]
    rng.shuffle(long)
    hists = short + (long[:250] if ctx.quick else long)
    space = [(c, f, x) for c in ('info', 'ic3v2', 'ic3v3', 'cube') for f in ('', 'A', 'B', 'C', 'GMSH', 'VTK', 'none') for x in ('.x', '.y', '.msh', '.vtu', '.zzz', '', '.mshx', '.ms', '.', '.x.zzz', '.zzz.x')]
    noname = [q for q in space if q[1] == '']
    root = ctx.subdir('fmt')
    jobs = []
    for i, h in enumerate(hists):
        qs = noname + rng.sample(space, 16 if ctx.quick else 60)
        if ['writer', 'VTK'] not in [x[:2] for x in h]:  # the library of the real one wants its extension
            qs = [x for x in qs if x[:2] != ('cube', 'VTK') or x[2] == '.vtu']
        jobs.append((f'h{i}', h, qs, root))
    cases = pmap(registry, jobs)
    js = []
    for fmt, vers, ext in (('IC3', [(2, '<'), (2, '>'), (3, '<'), (3, '>')], '.ic3'), ('GMSH', [(2,), (4,)], '.msh'), ('CGNS', [(3,)], '.cgns')):
        for ver in vers:
            for cmd in ('info', 'ic3v2', 'ic3v3') + (('cube',) if fmt == 'IC3' else ()):
                for x, byname in ((ext, False), (ext, True), ('.dat', True), ('', True), ('.msh' if fmt == 'IC3' else '.ic3', True)):
                    for _ in range(2 if ctx.quick else 8):
                        js.append((f'k{len(js)}', fmt, ver, x, byname, cmd, rng.randrange(1 << 30), root))
    cases += pmap(known, js)
    ctx.notes['commands run'] = sum(len(c['ev']) for c in cases)
    ctx.validate('FormatTrace', cases)
