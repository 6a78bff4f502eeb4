"""C08: extrusion gives the exact layered mesh."""
import random

import numpy as np

import big
import bigger
import gen
import ic3fmt
import life
import proj
from common import errtxt, outcome, pmap

ASSUMPTIONS = ['nodes of the plane mesh and planes at multiples of 1/8, so that translations are exact',
               'the extruded mesh can be written when no two marks hold both ends of one edge and none holds all nodes of a cell']


def axes(rng):
    return rng.choice([(0, 1, 2), (1, 2, 0), (2, 0, 1)]) if rng.random() < 0.4 else (0, 1, 2)


def planes_of(kind, n, rng):
    """positions and direction, in eighths; None for default arguments"""
    if kind == 'unit':
        return [8 * k for k in range(n)], [0, 0, 8]
    if kind == 'uneven':
        p = [0]
        while len(p) < n:
            p.append(p[-1] + rng.choice([1, 3, 8, 20]))
        return p, [0, 0, 8]
    if kind == 'below':
        return [8 * k - 12 for k in range(n)], [0, 0, 4]
    if kind == 'oblique':
        return [4 * k + 1 for k in range(n)], [rng.randrange(-8, 9), rng.randrange(-8, 9), rng.randrange(1, 12)]
    if kind == 'down':
        return [-8 * k for k in range(n)], [0, 0, 8]
    return [0, 8], [0, 0, 8]


def edge_groups(gm, kind, rng):
    """marks of the plane mesh: list of (name, nodes)"""
    if kind == 'none':
        return []
    if kind in ('sides', 'perio', 'part'):
        g = sorted(gen.plane_patches(gm).items())
        if kind == 'part':
            g = rng.sample(g, rng.randrange(1, len(g)))
        return [(n, sorted({v for w in ws for v in w})) for n, ws in g]
    # walk around the boundary, cut in pieces
    nxt = {w[0]: w[1] for w in gm.boundary()}
    a = rng.choice(sorted(nxt))
    loop = [a]
    while nxt[loop[-1]] != a:
        loop.append(nxt[loop[-1]])
    if kind == 'halves':
        k = len(loop) // 2
        cuts = [0, k]
    else:
        cuts = sorted({0} | {rng.randrange(len(loop)) for _ in range(rng.randrange(1, len(loop)))})
    loop2 = loop + [loop[0]]
    res = []
    for i, c in enumerate(cuts):
        end = cuts[i + 1] if i + 1 < len(cuts) else len(loop)
        nodes = loop2[c:end + 1]
        rng.shuffle(nodes)
        res.append((f'wall {i}' if rng.random() < 0.5 else f'w{i}', nodes))
    return res


def ints(xyz):
    """exact integers in units of 1/64; None when a coordinate is not one"""
    res = []
    for p in np.asarray(xyz, dtype=float):
        q = [float(v) * 64 for v in p]
        if any(v != int(v) or abs(v) > 2 ** 30 for v in q):
            return None
        res.append([int(v) for v in q])
    return res


def state(mesh):
    s = proj.p_mesh(mesh)
    pts = ints(mesh.nodescoord(ndarray=True))
    assert pts is not None, 'coordinates are not exact'
    s['pts'] = pts
    return s


def free(name, names):
    return free(name + '_', names) if name in names else name


def extrude_case(job):
    cid, sc, seed, wd = job
    rng = random.Random(seed)
    gm = gen.plane_mesh(sc['dims'][0], sc['dims'][1], sc['kind'], z=rng.choice([0, 0, 5]))
    gm = gm.shuffled(rng)
    ax = axes(rng)
    xyz = np.array(gm.coords, dtype=float)[:, ax] / 8 if rng.random() < 0.7 else np.array(gm.coords, dtype=float)
    if rng.random() < 0.12:  # integers
        xyz = np.array(gm.coords)[:, ax]
    elif rng.random() < 0.3:
        xyz = life.layout(xyz, rng)
    if rng.random() < 0.2:  # a node of no cell
        xyz = np.vstack([xyz, [[100.0, -3.0, 0.125]]])
        gm.coords.append((0, 0, 0))
    mesh, _ = proj.build_mesh(gm, rng, sc['mode'], xyz)
    marks = edge_groups(gm, sc['marks'], rng)
    dom = rng.choice(['fluid', 'fluid', 'core', 'd 1'])
    if rng.random() < 0.15:  # names of the end planes that are taken
        other = rng.sample([dom + '0', dom + '1', dom + '0_'], 3)
        marks = [(other[i] if i < 2 else n, q) for i, (n, q) in enumerate(marks)]
    for i, (name, nodes) in enumerate(marks):
        tp, per = 'boundary', None
        if sc['marks'] == 'perio' and i < 2:
            tp, per = 'perio_cart', [1.0, 0.0, 0.5]
        proj.add_mark(mesh, name, rng.choice(['node', 'bdnode']), nodes, tp, per, as_range=rng.random() < 0.5)
    if rng.random() < 0.3:  # data and parameters do not matter
        nd, cd, _ = life.make_fields('few', gm.nnode, gm.ncell, rng)
        life.set_fields(mesh, nd, cd, 1)
        mesh.set_params({'step': 4})
    planes, d = planes_of(sc['planes'], sc['np'], rng)
    kw = {}
    if sc['planes'] != 'default':
        p = [v / 8 for v in planes]
        kw['extrude'] = rng.choice([p, np.array(p), tuple(p)])
        if d != [0, 0, 8] or rng.random() < 0.3:
            kw['direction'] = rng.choice([np.array(d) / 8, [v / 8 for v in d]])
    if dom != 'fluid':
        kw['domain'] = dom
    src = state(mesh)
    e = {'op': 'extrude', 'src': src, 'planes': planes, 'dir': d, 'dom': dom, 'exc': '', 'after': {}, 'post': {}}
    ok, new = outcome(lambda: mesh.export_extruded(**kw))
    if not ok:
        e['exc'] = errtxt(new)
        return {'id': cid, 'ev': [e]}
    ok, post = outcome(state, new)
    if not ok:
        e['exc'] = 'state: ' + errtxt(post)
        return {'id': cid, 'ev': [e]}
    e['post'], e['after'] = post, state(mesh)
    ev = [e]
    if rng.random() < 0.5:
        for op, f in (('derive', new.make_face_connectivity), ('convert', new.bocomarks_set_node_to_face)):
            e = {'op': op, 'exc': ''}
            ok, r = outcome(f)
            if not ok:
                e['exc'] = errtxt(r)
            else:
                e['post'] = proj.p_mesh(new)
            ev.append(e)
            if not ok:
                return {'id': cid, 'ev': ev}
        st = ev[-1]['post']
        face = {f[0]: f[2] for f in st['bnd']['f']}
        ev.append({'op': 'sides', 'exc': '', 'bnd': list(face.values()), 'names': [m['name'] for m in st['marks']],
                   'sets': [[face[i] for i in m['index']] for m in st['marks']]})
    else:  # as a writer leaves it in a file
        e = {'op': 'sides', 'exc': '', 'bnd': [], 'names': [], 'sets': []}
        fname = f'{wd}/{cid}.ic3'
        ok, r = outcome(lambda: life.writer_of(rng.choice([2, 3]))(new).write_data(fname))
        if not ok:
            e['exc'] = errtxt(r)
        else:
            with open(fname, 'rb') as f:
                p = ic3fmt.parse(f.read())
            noofa = [s for s in p['sec'] if s['k'] == 'NOOFA'][0]
            off = noofa['off']
            nf = len(off) - 1
            nodes = noofa['v'][nf:]
            face = [nodes[off[i]:off[i + 1]] for i in range(nf)]
            cv = [s for s in p['sec'] if s['k'] == 'CVOFA'][0]['v']
            e['bnd'] = [face[i] for i in range(nf) if cv[2 * i + 1] == -1]
            for s in p['sec']:
                if s['k'] == 'FA_ZONE' and s['i'][0] != 6:
                    e['names'].append(s['name'])
                    e['sets'].append(face[s['i'][1]:s['i'][2] + 1])
            listed = set(e['names'])
            if not src['marks'] and sc['marks'] == 'none' or sc['marks'] == 'part':  # the mark of the rest is not one of the extrusion
                keep = {m['name'] for m in src['marks']}
                keep |= {free(dom + '0', keep), free(dom + '1', keep)}
                e['sets'] = [q for n, q in zip(e['names'], e['sets']) if n in keep]
                e['names'] = [n for n in e['names'] if n in keep]
            del listed
        ev.append(e)
    return {'id': cid, 'ev': ev}


def run(ctx):
    q = ctx.quick
    ctx.mc('ExtrudeAlg', 'ExtrudeTiny' if q else 'ExtrudeAlg')
    scen = ctx.gen('ExtrudeAlg', 'ExtrudeGen', simulate=(1000 if q else 12000, 8))
    rng, wd = ctx.rng, ctx.subdir('ext')
    rng.shuffle(scen)
    use = scen[: 900 if q else 12000]
    ctx.notes['scenarios replayed'] = len(use)
    cases = pmap(extrude_case, [(f'x{i}', s, rng.randrange(1 << 30), wd) for i, s in enumerate(use)])
    ctx.validate('ExtrudeTrace', cases)
    big.judge(ctx, bigger.plane_case, [(f'big{i}', d, rng.randrange(1 << 30)) for i, d in enumerate([(130, 90, 6), (63, 63, 3)] + ([] if q else [(300, 250, 2), (6, 7000, 1), (40, 40, 60)]))])
