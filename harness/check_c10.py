"""C10: GMSH files are read exactly, whatever their layout."""
import random

import numpy as np

import big
import bigger
import gen
import mshfmt
from common import errtxt, fbits, outcome, pmap

ASSUMPTIONS = ['valid ASCII files of linear elements, version 2.2 or 4.1, where each cell is in at most one physical group and once in the file',
               'nodes have distinct coordinates (they identify the nodes of the mesh read)',
               'a group of faces named "fluid", or a file without any physical name, has no stated marks']


def make_mesh(s, rng):
    if s['dim'] == 2:
        nx, ny = rng.randrange(1, 4), rng.randrange(1, 3)
        kinds = {'quad': ['Q'], 'tri': ['T0', 'T1'], 'mixed': ['Q', 'T0', 'T1']}[s['mix']]
        gm = gen.plane_mesh(nx, ny, [rng.choice(kinds) for _ in range(nx * ny)])
    else:
        dims = rng.choice([(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2)])
        kinds = {'quad': ('H',), 'tri': ('C',), 'mixed': ('H', 'C', 'Px0', 'Py1', 'Pz0', 'Pz1')}[s['mix']]
        gm = gen.lattice_mesh(dims, gen.random_kinds(dims, rng, kinds), rng)
    gm = gm.shuffled(rng)
    return gm


def places(gm, kind, rng, n):
    """distinct coordinates"""
    res = [tuple(float(v) for v in c) + (0.0,) * (3 - len(c)) for c in gm.coords]
    res += [(100.0 + k, float(k), 0.0) for k in range(n - len(res))]
    if kind != 'int':
        f = 1e-7 if kind == 'tiny' else 1.0
        a = [rng.uniform(0.1, 3.0) * f for _ in range(3)]
        b = [rng.uniform(-1.0, 1.0) * f for _ in range(3)]
        res = [tuple(a[k] * p[k] + b[k] for k in range(3)) for p in res]
    return res


def content(s, rng):
    """layout drawn for a mesh: content for the specification and the text of each version"""
    gm = make_mesh(s, rng)
    dim, nused = gm.dim, gm.nnode
    nn = nused + s['unused']
    xyz = places(gm, s['coords'], rng, nn)
    if s['flat'] == 'any' and dim == 2:
        xyz = [(p[2], p[0], p[1]) for p in xyz]
    tags = list(range(1, nn + 1))
    if s['tags'] == 'shuffled':
        rng.shuffle(tags)
    elif s['tags'] == 'sparse':
        tags = rng.sample(range(1, 4 * nn + 5), nn)
    elif s['tags'] == 'high':
        tags = [10 ** 6 + 3 * t for t in tags]
    # entities: (dim, tag) -> elements
    ents = {}
    for k, faces in enumerate(gen.patches(gm, rng, s['nent'], rng.choice([1.0, 1.0, 0.7]))):
        ents[dim - 1, k + 1] = [(gen.FT[len(w)], list(w)) for w in faces]
    cells = list(gm.cells)
    cuts = sorted(rng.sample(range(1, len(cells)), min(len(cells), s['ncent']) - 1))
    for k, (a, b) in enumerate(zip([0] + cuts, cuts + [len(cells)])):
        ents[dim, k + 1] = [(et, list(nd)) for et, nd in cells[a:b]]
    if s['lower'] in ('points', 'both'):
        ents[0, 1] = [('node1', [rng.randrange(nn)])]
        ents[0, 2] = [('node1', [rng.randrange(nn)])]
    if s['lower'] in ('curves', 'both') and dim == 3:
        w = rng.choice(gm.boundary())
        ents[1, 1] = [('bar2', [w[0], w[1]]), ('bar2', [w[1], w[2]])]
    # groups of each entity
    phys, base = {}, {0: 0, 1: 0, 2: 0, 3: 0}
    if s['clash'] == 'none':
        base = {0: 300, 1: 200, 2: 100, 3: 0}
    elif s['clash'] == 'some':
        base = {0: 1, 1: 2, 2: 0, 3: 1}
    for (d, k) in ents:
        b = base[d]
        if d == dim:
            g = [] if s['cgroup'] == 'none' else [b + (k if rng.random() < 0.5 else 1)]
        elif s['groups'] == 'own':
            g = [b + k]
        elif s['groups'] == 'shared':
            g = [b + (k + 1) // 2]
        elif s['groups'] == 'several':
            g = sorted({b + k, b + rng.randrange(1, 4)})
        elif s['groups'] == 'some':
            g = [b + k] if rng.random() < 0.5 else []
        else:
            g = []
        phys[d, k] = g
    label = {'plain': lambda d, g: f'g{d}_{g}', 'same': lambda d, g: f'part {g // 2}', 'space': lambda d, g: f'part {d} no {g}',
             'odd': lambda d, g: ['INLET', 'Out-let.2', 'p+q', "wall's", 'é', '$Nodes', '12', 'x'][g % 8] + f'{d}{g}'}[s['names']]
    names = {(d, g): label(d, g) for (d, k), gs in phys.items() for g in gs}
    if s['unnamed'] == 'one' and names:
        names.pop(rng.choice(sorted(names)))
    if s['unnamed'] == 'cells':
        names = {k: v for k, v in names.items() if k[0] != dim}
    if rng.random() < 0.2:
        names[dim - 1, 77] = 'group of nothing'
    named = list(names.items())
    rng.shuffle(named)
    names = dict(named)
    f = {'nodes': [[tags[i], ' '.join(map(fbits, xyz[i]))] for i in range(nn)],
         'elems': [[mshfmt.DIM[et], et, phys[e], [tags[n] for n in nd]] for e, lst in ents.items() for et, nd in lst],
         'names': [[d, g, n] for (d, g), n in names.items()]}
    # layouts
    order = sorted(range(nn), key=lambda i: tags[i])
    if s['mixorder']:
        rng.shuffle(order)
    eo = list(ents)
    if s['entorder'] == 'shuffled':
        rng.shuffle(eo)
    extra = {'none': [], 'comments': ['$Comments', 'written by nobody', '12 13 14', '$EndComments'],
             'periodic': ['$Periodic', '1', '0 1 2', '1', '1 2', '$EndPeriodic']}[s['extra']]
    elems = [(et, nd, phys[e], e[1]) for e in eo for et, nd in ents[e]]
    if s['mixorder']:
        rng.shuffle(elems)
    t2 = mshfmt.v22(xyz, elems, names, tags, order, s['ntags'], extra)
    # version 4: blocks of nodes and of elements
    ent = lambda: rng.choice(eo)
    if s['blocks'] == 'one':
        cutn = [order]
    elif s['blocks'] == 'single':
        cutn = [[i] for i in order]
    else:
        k = min(nn - 1, len(eo) if s['blocks'] == 'entity' else rng.randrange(1, 6))
        c = sorted(rng.sample(range(1, nn), k))
        cutn = [order[a:b] for a, b in zip([0] + c, c + [nn])]
    if s['lastone'] and len(cutn[-1]) > 1:
        cutn[-1:] = [cutn[-1][:-1], cutn[-1][-1:]]
    nb = [[*ent(), s['param'] and rng.random() < 0.6, b] for b in cutn]
    if s['emptyb']:
        for _ in range(2):
            nb.insert(rng.randrange(len(nb) + 1), [*ent(), False, []])
    eb = []
    for e in eo:
        lst = list(ents[e])
        if s['mixorder']:
            rng.shuffle(lst)
        for et in sorted({x[0] for x in lst}):
            q = [nd for t, nd in lst if t == et]
            k = rng.randrange(len(q)) if s['eblocks'] == 'split' else 0
            eb += [(et, e[1], part) for part in (q[:k], q[k:]) if part]
    if s['entorder'] == 'shuffled':
        rng.shuffle(eb)
    allp = {e: phys[e] for e in eo}
    if rng.random() < 0.3:
        allp[dim - 1, 50] = []  # an entity without element
    if rng.random() < 0.3 and (0, 1) not in allp:
        allp[0, 1] = []
    t4 = mshfmt.v41(xyz, names, tags, nb, eb, allp, extra, s['ent'] or any(allp.values()))
    return gm, f, t2, t4


def observe(mesh, f):
    tagof = {p: t for t, p in f['nodes']}
    x, y, z = (np.asarray(c, dtype=float) for c in mesh.nodescoord())
    pts = [' '.join((fbits(a), fbits(b), fbits(c))) for a, b, c in zip(x, y, z)]
    cells = []
    for t, d in mesh._cell2node.items():
        cells += [[int(k), str(t), [int(v) for v in r]] for k, r in zip(d['index'].list(), np.asarray(d['elem2node']).tolist())]
    marks = []
    for b in mesh._bocos.values():
        marks.append({'name': str(b.name), 'type': str(b.type), 'geodim': str(b.geodim), 'index': [int(v) for v in b.index.list()]})
    return {'nnode': int(mesh.nnode), 'ncell': int(mesh.ncell), 'pts': pts, 'cells': cells, 'marks': marks,
            'w': [tagof.get(p, -1) for p in pts]}


def read(path, f):
    from cfdtools.gmsh import reader

    r = reader(path)
    r.read_data()
    return observe(r.export_mesh(), f)


EMPTY = {'nnode': 0, 'ncell': 0, 'pts': [], 'cells': [], 'marks': [], 'w': []}


def case(job):
    cid, s, seed, wd = job
    rng = random.Random(seed)
    _, f, t2, t4 = content(s, rng)
    ev = []
    for ver, txt in (('v2', t2), ('v4', t4)):
        p = f'{wd}/{cid}-{ver}.msh'
        with open(p, 'w') as fid:
            fid.write(txt)
        ok, m = outcome(read, p, f)
        ev.append({'op': 'read', 'ver': ver, 'exc': '' if ok else errtxt(m), 'm': m if ok else EMPTY})
        if ok:
            import os

            os.remove(p)
    ev.append({'op': 'same', 'a': 1, 'b': 2, 'exc': ''})
    return {'id': cid, 'scen': s, 'f': f, 'ev': ev}


def run(ctx):
    ctx.mc('GmshFile', 'GmshFile' if ctx.quick else 'GmshFileBig', timeout=3000)
    scen = ctx.gen('GenGmsh', simulate=(600 if ctx.quick else 8000, 3))
    wd = ctx.subdir('msh')
    cases = pmap(case, [(f's{i}', s, ctx.rng.randrange(1 << 30), wd) for i, s in enumerate(scen)])
    ctx.notes['files read'] = 2 * len(cases)
    ctx.validate('GmshTrace', cases)
    big.judge(ctx, bigger.gmsh_case, [(f'big{i}-{v}', d, ctx.rng.randrange(1 << 30), wd, v) for i, d in enumerate(big.sizes(ctx)) for v in ('2.2', '4.1')])
