"""C11: CGNS files are read exactly, whatever the order of their sections and the way conditions are given."""
import os
import random

import numpy as np

import big
import bigger
import cgnsfmt
import check_c10
import gen
from common import errtxt, fbits, outcome, pmap

ASSUMPTIONS = ['unstructured zones of linear elements with three coordinates; sections number the elements 1..n without gap',
               'a condition that lists all the nodes, or all the cells, is the domain and not a mark (documented by the code as a filter)',
               'conditions of one family designate the same kind of entity and make one mark',
               'in a plane zone FaceCenter designates edges, as the reader takes it', 'zones of two bases have different names']


def build_zone(s, name, rng):
    """(plain zone for the writer, content for the specification)"""
    gm = check_c10.make_mesh(s, rng)
    dim = gm.dim
    xyz = check_c10.places(gm, s['coords'], rng, gm.nnode)
    secs = []  # (type, elements from 1)
    bycell, byface = {}, {}
    for et, nd in gm.cells:
        bycell.setdefault(et, []).append([n + 1 for n in nd])
    patches = gen.patches(gm, rng, rng.choice([1, 2, 3]), rng.choice([1.0, 1.0, 0.6]))
    pf = []
    for k, faces in enumerate(patches):
        for w in faces:
            byface.setdefault((k if s['split'] else 0, gen.FT[len(w)]), []).append([n + 1 for n in w])
    cells = []
    for et, lst in bycell.items():
        k = rng.randrange(len(lst)) if s['split'] else 0
        cells += [(et, p) for p in (lst[:k], lst[k:]) if p]
    faces = [(t, lst) for (_, t), lst in byface.items()]
    if s['extra'] and dim == 3:
        faces.append(('bar2', [[1, 2]]))
    if s['points']:
        faces.append(('node1', [[rng.randrange(gm.nnode) + 1]]))
    secs = cells + faces if s['order'] == 'cells' else faces + cells
    if s['order'] == 'any':
        rng.shuffle(secs)
    first, out = 1, []
    for k, (t, conn) in enumerate(secs):
        nm = {'sorted': f'S{k:03d}', 'reverse': f'S{900 - k}', 'any': f'{rng.choice("abcXYZ")} {t} {k}'}[s['names']]
        out.append({'name': nm, 'type': t, 'first': first, 'conn': conn})
        first += len(conn)
    fnum = [x['first'] + i for x in out if gen_dim(x['type']) == dim - 1 for i in range(len(x['conn']))]
    cnum = [x['first'] + i for x in out if gen_dim(x['type']) == dim for i in range(len(x['conn']))]
    fruns = [(x['first'], x['first'] + len(x['conn']) - 1) for x in out if gen_dim(x['type']) == dim - 1]
    bcs = []
    for k, b in enumerate(s['bcs']):
        nm = f'BC {k}' if rng.random() < 0.5 else f'B{9 - k}'
        other = [x['name'] for x in bcs if x['group'] != b['grp'] and not [y for y in bcs if y['name'] == x['name'] and y['group'] == b['grp']]]
        if b['clash'] and other and b['family'] != 'none':
            nm = rng.choice(other)
        c = {'name': nm, 'kind': rng.choice(['BCWall', 'BCInflow', 'FamilySpecified', 'Null']), 'group': b['grp']}
        h = b['how']
        n = {'patch': rng.randrange(1, len(fnum) + 1) if fnum else 1, 'one': 1, 'cells': len(cnum)}[b['size']]
        if h in ('vlist', 'vrange', 'all'):
            c['loc'] = 'Vertex' if b['loc'] else None
            if h == 'all':
                c['how'], c['index'] = 'list', list(range(1, gm.nnode + 1))
            elif h == 'vrange':
                a = rng.randrange(1, gm.nnode + 1)
                c['how'], c['index'] = 'range', [a, rng.randrange(a, gm.nnode + 1)]
            else:
                c['how'], c['index'] = 'list', rng.sample(range(1, gm.nnode + 1), rng.randrange(1, gm.nnode + 1))
        elif h in ('flist', 'elist', 'joint'):
            if not fnum:
                continue
            c['how'], c['index'] = ('list' if h == 'flist' else 'elist'), rng.sample(fnum, min(n, len(fnum)))
            if h == 'flist':
                c['loc'] = 'FaceCenter'
        elif h in ('frange', 'erange'):
            if not fnum:
                continue
            a, z = rng.choice(fruns)
            a2 = rng.randrange(a, z + 1)
            c['how'], c['index'] = ('range' if h == 'frange' else 'erange'), [a2, rng.randrange(a2, z + 1)]
            if h == 'frange':
                c['loc'] = 'FaceCenter'
        else:
            c['how'], c['index'] = 'list' if h == 'clist' else 'elist', rng.sample(cnum, rng.randrange(1, len(cnum) + 1))
            if h == 'clist':
                c['loc'] = 'CellCenter'
        if b['order'] == 'sorted' and 'list' in c['how']:
            c['index'].sort()
        iscell = h in ('clist', 'cells')
        if b['family'] == 'own':
            c['family'] = f'fam {k}'
        elif b['family'] == 'shared':
            c['family'] = 'VOL' if iscell else 'WALL'
        bcs.append(c)
    z = {'name': name, 'coords': xyz, 'ncell': gm.ncell, 'sections': rng.sample(out, len(out)), 'bcs': bcs, 'int': np.int32 if s['int'] == 4 else np.int64}
    spec = {'pts': [' '.join(map(fbits, p)) for p in xyz], 'dim': dim, 'secs': [[x['type'], x['first'], x['conn']] for x in out],
            'bcs': [{'name': c.get('family') or c['name'], 'how': 'points' if c['how'] in ('list', 'range') else 'elements', 'loc': c.get('loc') or 'Vertex',
                     'index': c['index'] if 'list' in c['how'] else list(range(c['index'][0], c['index'][1] + 1))} for c in bcs]}
    return z, spec


def gen_dim(t):
    return {'node1': 0, 'bar2': 1, 'tri3': 2, 'quad4': 2}.get(t, 3)


def case(job):
    cid, s, seed, wd = job
    from cfdtools.cgns import cgnsMesh

    rng = random.Random(seed)
    zs, specs, bases = [], [], [{'name': f'Base {k}', 'cell_dim': None, 'zones': []} for k in range(s['bases'])]
    for k, zsc in enumerate(s['zones']):
        b = rng.choice(bases)
        if b['cell_dim']:
            zsc = dict(zsc, dim=b['cell_dim'])
        z, spec = build_zone(zsc, rng.choice(['Zone', 'blk', 'Z ']) + f'{k}', rng)
        b['cell_dim'] = spec['dim']
        b['zones'].append(z)
        zs.append(z)
        specs.append(spec)
    bases = [b for b in bases if b['zones'] or rng.random() < 0.5]
    for b in bases:
        b['cell_dim'] = b['cell_dim'] or rng.choice([2, 3])
    path = os.path.join(wd, cid + rng.choice(['.cgns', '.hdf']))
    cgnsfmt.write(path, bases)
    ev = []
    k = rng.randrange(len(zs))
    ask = {'name': zs[k]['name'], 'none': None, 'unknown': 'nowhere'}[s['ask']]
    want = k + 1 if s['ask'] == 'name' else 1 if s['ask'] == 'none' and len(zs) == 1 else 0

    def read():
        r = cgnsMesh(path)
        r.read_data() if ask is None and rng.random() < 0.5 else r.read_data(zone=ask)
        meshes = [r.export_mesh() for _ in range(2 if s['again'] else 1)]
        return [check_c10.observe(m, {'nodes': []}) for m in meshes]

    ok, res = outcome(read)
    for m in res if ok else [check_c10.EMPTY]:
        ev.append({'op': 'read', 'zone': want, 'exc': '' if ok else errtxt(res), 'm': m})
    os.remove(path)
    return {'id': cid, 'zones': specs, 'ev': ev, 'scen': s}


def run(ctx):
    ctx.mc('CgnsFile', 'CgnsFile', timeout=1500)
    if not ctx.quick:
        ctx.mc('CgnsFile', 'CgnsFileBig', timeout=3000)
    scen = ctx.gen('GenCgns', simulate=(700 if ctx.quick else 10000, 3))
    wd = ctx.subdir('cgns')
    cases = pmap(case, [(f's{i}', s, ctx.rng.randrange(1 << 30), wd) for i, s in enumerate(scen)])
    ctx.notes['files read'] = len(cases)
    ctx.validate('CgnsTrace', cases)
    big.judge(ctx, bigger.cgns_case, [(f'big{i}', d, ctx.rng.randrange(1 << 30), wd) for i, d in enumerate(big.sizes(ctx))])
