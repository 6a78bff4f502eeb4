"""Executes a plan of GenLife.tla on the real code and records the events for MeshTrace.tla."""
import random
import struct

import numpy as np

import gen
import ic3fmt
import proj
from common import errtxt, outcome

NAMES52 = 'a_very_long_name_of_exactly_fifty_two_characters_abcd'[:52]


# ---------------------------------------------------------------- inputs
def make_gm(kind, rng):
    if kind in ('tetra1', 'pyra1', 'prism1'):
        et = {'tetra1': 'tetra4', 'pyra1': 'pyra5', 'prism1': 'prism6'}[kind]
        n = gen.NN[et]
        gm = gen.GM([(i, i * i, i ** 3) for i in range(n)], [(et, list(range(n)))], 3, et)
    elif kind == 'hexa':
        d = rng.choice([(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 1, 1)])
        gm = gen.lattice_mesh(d, ['H'] * (d[0] * d[1] * d[2]), rng)
    elif kind == 'prism':
        d = rng.choice([(1, 1, 1), (2, 1, 1), (2, 2, 1)])
        gm = gen.lattice_mesh(d, [rng.choice(['Pz0', 'Pz1']) for _ in range(d[0] * d[1] * d[2])], rng)
    elif kind == 'small':
        d = rng.choice([(1, 1, 1), (2, 1, 1)])
        gm = gen.lattice_mesh(d, gen.random_kinds(d, rng), rng)
    else:
        d = rng.choice([(2, 1, 1), (2, 2, 1), (1, 2, 2), (3, 1, 1)])
        gm = gen.lattice_mesh(d, gen.random_kinds(d, rng), rng)
    return gm.shuffled(rng)


def make_coords(gm, rng):
    a = np.array(gm.coords, dtype=float)
    a = a * rng.choice([1.0, 0.1, 1e-12, 3.0]) + rng.choice([0.0, 0.0, 1 / 3, -1e5])
    a += 1e-9 * np.array([[rng.random() for _ in range(3)] for _ in gm.coords]).reshape(a.shape)
    if rng.random() < 0.3:
        a[rng.randrange(len(a)), rng.randrange(3)] = rng.choice([-0.0, 5e-324, 1e300, -1e-310])
    return layout(a, rng)


SPECIAL = [float('nan'), float('inf'), float('-inf'), -0.0, 5e-324, 1.7976931348623157e308, 1 / 3]


def values(shape, rng, special=False):
    n = int(np.prod(shape))
    v = np.array([rng.choice(SPECIAL) if special and rng.random() < 0.4 else rng.uniform(-10, 10) for _ in range(n)])
    return layout(v.reshape(shape), rng)


def layout(v, rng):
    """the same values in another memory order: the layout of an array is not part of its value"""
    k = rng.randrange(5)
    if k == 0:
        return np.asfortranarray(v)
    if k == 1:  # a view of a larger array
        big = np.full((2 * v.shape[0],) + v.shape[1:], 9.25)
        big[::2] = v
        return big[::2]
    if k == 2:
        return v[::-1].copy()[::-1]
    return v


def make_fields(kind, nnode, ncell, rng):
    """(node fields, cell fields, ndof): name -> array"""
    nd, cd, ndof = {}, {}, 1
    if kind == 'few':
        cd['rho'] = values((ncell,), rng)
        cd['rhou'] = values((ncell, 3), rng)
        nd['phi'] = values((nnode,), rng)
    elif kind == 'nodes':
        nd['t'] = values((nnode,), rng)
        nd['disp'] = values((nnode, 3), rng)
        nd['s2'] = values((nnode,), rng)
    elif kind == 'cells':
        cd['T'] = values((ncell, 3, 3), rng)
        cd['e'] = values((ncell,), rng)
        cd['vec'] = values((ncell, 3), rng)
    elif kind == 'ints':
        cd['iref'] = np.array([rng.choice([0, -1, 2 ** 40 + 3, rng.randrange(1000)]) for _ in range(ncell)], dtype=np.int64)
        nd['nref'] = np.array([rng.choice([-5, rng.randrange(10 ** 9)]) for _ in range(nnode)], dtype=np.int64)
        cd['f'] = values((ncell,), rng)
    elif kind in ('dof2', 'dof3', 'dof4'):
        ndof = int(kind[3])
        cd['rho'] = values((ncell * ndof,), rng)
        cd['U'] = values((ncell * ndof, 3), rng)
        cd['tau'] = values((ncell * ndof, 3, 3), rng)
        cd['flag'] = np.array([rng.randrange(-9, 9) for _ in range(ncell * ndof)], dtype=np.int64)
        nd['q'] = values((nnode,), rng)
    elif kind == 'many':
        for i in range(4):
            cd[f'c{i}'] = values((ncell,) + rng.choice([(), (3,), (3, 3)]), rng)
            nd[f'n{i}'] = values((nnode,) + rng.choice([(), (3,)]), rng)
    elif kind == 'names':
        cd['same'] = values((ncell,), rng)
        nd['same'] = values((nnode, 3), rng)
        cd[NAMES52] = values((ncell, 3), rng)
        nd['with space / and-sign'] = values((nnode,), rng)
        cd['Case'] = values((ncell,), rng)
        cd['case'] = values((ncell,), rng)
        cd['X'] = values((ncell,), rng)
        cd['EOF'] = values((ncell,), rng)
        cd['DEOF_x'] = values((ncell,), rng)
        nd['TIME'] = values((nnode,), rng)
    elif kind == 'special':
        cd['rho'] = values((ncell,), rng, True)
        cd['U'] = values((ncell, 3), rng, True)
        nd['n'] = values((nnode,), rng, True)
    items = list(cd.items())
    rng.shuffle(items)
    return nd, dict(items), ndof


def set_fields(mesh, nd, cd, ndof):
    import cfdtools.data as data

    if nd:
        ds = data.DataSet('nodal')
        for k, v in nd.items():
            ds.add_data(k, v)
        mesh.set_nodedata(ds)
    if cd:
        ds = data.DataSet('cellaverage' if ndof == 1 else 'spectralcell')
        if ndof > 1:
            ds.ndof = ndof
        for k, v in cd.items():
            ds.add_data(k, v)
        mesh.set_celldata(ds)


def make_state(kind, rng):
    p = {}
    if kind != 'none':
        p = {'step': rng.choice([0, 1, 12345, 2 ** 31 + 7, 5 * 10 ** 12, -1, -2 ** 40]), 'dt': rng.choice([1e-7, 0.1, 1 / 3, -0.25, 0.0]),
             'time': rng.choice([0.0, 3.75, 1e-30, 2 / 3, -12.5, -0.0, float('inf'), float('nan')])}
    if kind == 'wgt':
        ws = {f'{n}': rng.uniform(0, 9) for n in rng.sample(['rho', 'u_avg', 'p_rms', 'reyn'], rng.randrange(1, 4))}
        if rng.random() < 0.5:
            p['wgt'] = ws
        else:
            p.update({k + '_wgt': v for k, v in ws.items()})
            p['wgt'] = {}
    return p


# ---------------------------------------------------------------- marks
class Marker:
    """chooses the faces of a mark (sets of nodes) from plain data; knows what is claimed so far"""

    def __init__(self, gm, rng):
        self.gm, self.rng = gm, rng
        self.walks = gm.boundary()
        self.sets = [frozenset(w) for w in self.walks]
        self.claimed = set()
        self.names = []
        self.planes = [list(map(frozenset, v)) for v in gen.plane_patches(gm).values()]

    def closure(self, nodes):
        return {s for s in self.sets if s <= nodes}

    def choose(self, rel, kind):
        rng = self.rng
        free = [s for s in self.sets if s not in self.claimed]
        rng.shuffle(free)
        if rel == 'any':
            pool = list(self.sets)
            rng.shuffle(pool)
            return pool[: rng.randrange(1, max(2, len(pool) // 2))]
        if rel == 'rest':
            want = free
        elif rel == 'side' and self.planes:
            want = [s for s in rng.choice(self.planes)]
        else:
            want = free[: rng.randrange(1, 1 + max(1, len(free) // (1 if rel == 'some' else 2)))] if free else []
        if kind != 'node':
            return [s for s in want if s not in self.claimed]
        res = []
        nodes = set()
        for s in want:  # keep clear of faces already claimed
            if not (self.closure(nodes | s) & self.claimed):
                res.append(s)
                nodes |= s
        return res

    def name(self, cls):
        n = {'plain': f'wall{len(self.names)}', 'long': (f'{len(self.names)}' + NAMES52)[:52], 'space': f'left wall {len(self.names)}',
             'slash': f'in/out {len(self.names)}',
             'unmarked': 'unmarked'}[cls]
        if n in self.names:
            n = f'{n}{len(self.names)}'[:52]
        self.names.append(n)
        return n


def add_mark(mesh, mk, op, rng):
    """returns False when there is no face left for it"""
    sets = mk.choose(op['rel'], op['kind'])
    if not sets:
        return False
    per = None
    if op['type'].startswith('perio'):
        per = [rng.uniform(-2, 2) for _ in range(rng.choice([3, 3, 16]))]
    elif rng.random() < 0.2:
        per = [0.0] * rng.choice([3, 16])
    name = mk.name(op['name'])
    if op['kind'] == 'node':
        nodes = set().union(*sets)
        if rng.random() < 0.3:  # nodes that complete no further face
            extra = rng.randrange(mk.gm.nnode)
            if mk.closure(nodes | {extra}) == mk.closure(nodes):
                nodes.add(extra)
        nodes = list(nodes)
        rng.shuffle(nodes)
        mk.claimed |= mk.closure(set(nodes))
        proj.add_mark(mesh, name, rng.choice(['node', 'bdnode']), sorted(nodes) if rng.random() < 0.5 else nodes, op['type'], per,
                      as_range=rng.random() < 0.3)
        return True
    f2n = mesh._faces['boundary']['face2node']
    num = {frozenset(w): i for i, w in f2n.index_elem_tuples()}
    idx = sorted(num[s] for s in sets)
    if op['kind'] == 'range':  # a run of consecutive faces
        a = rng.randrange(len(idx))
        b = a
        while b + 1 < len(idx) and idx[b + 1] == idx[b] + 1 and rng.random() < 0.9:
            b += 1
        idx = idx[a:b + 1]
    else:
        rng.shuffle(idx)
    back = {i: s for s, i in num.items()}
    mk.claimed |= {back[i] for i in idx}
    proj.add_mark(mesh, name, rng.choice(['face', 'bdface']), idx, op['type'], per, as_range=op['kind'] == 'range')
    return True


# ---------------------------------------------------------------- execution
def writer_of(ver):
    import cfdtools.ic3.writerV2 as w2
    import cfdtools.ic3.writerV3 as w3

    return {2: w2, 3: w3}[ver].writer


def permute(b, how, rng):
    secs = ic3fmt.raw_sections(b)[3]
    n = len([s for s in secs if s[2] != ic3fmt.CODE['EOF']])
    order = list(range(n))
    extra = []
    if how == 'permuted':
        rng.shuffle(order)
    if how in ('foreign', 'permuted') and rng.random() < (1 if how == 'foreign' else 0.3):
        for _ in range(rng.randrange(1, 4)):
            nm = rng.choice([b'FOREIGN', b'X_NO', b'note', b'A' * 52])
            extra.append((rng.randrange(n + 1), nm, rng.choice([1, 7, 60, 99, 1000, 0, -2, -77, 2 ** 31 - 1, -2 ** 31]), bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 8, 256, 300])))))
    return ic3fmt.resection(b, order, extra, rng.choice([None, None, '<', '>']))


def run_plan(job):
    """(id, plan, seed, directory) -> case"""
    cid, plan, seed, wd = job
    rng = random.Random(seed)
    ev = []
    mesh = mk = fname = None
    nf = 0
    dof = False
    for op in plan:
        o = op['op']
        if o == 'start':
            gm = make_gm(op['mesh'], rng)
            nd, cd, ndof = make_fields(op['fields'], gm.nnode, gm.ncell, rng)
            dof = ndof > 1
            mesh, spec = proj.build_mesh(gm, rng, rng.choice(['default', 'split', 'explicit']), make_coords(gm, rng))
            set_fields(mesh, nd, cd, ndof)
            mesh.set_params(make_state(op['state'], rng))
            if op['part'] == 'part':
                npart = rng.randrange(1, 5)
                mesh.set_partition({'npart': npart, 'icvpart': np.array([rng.randrange(npart) for _ in range(gm.ncell)], dtype=np.int32)})
            mk = Marker(gm, rng)
            e = {'op': 'start', 'exc': ''}
        elif o == 'mark':
            e = {'op': 'start', 'what': 'mark', 'exc': ''}
            ok, r = outcome(add_mark, mesh, mk, op, rng)
            if not ok:
                e['exc'] = errtxt(r)
            elif not r:
                continue
        elif o in ('derive', 'convert', 'unmarked', 'reindex'):
            e = {'op': o, 'exc': ''}
            f = {'derive': mesh.make_face_connectivity, 'convert': mesh.bocomarks_set_node_to_face,
                 'unmarked': mesh.make_unmarked_BC, 'reindex': mesh.reindex_boundaryfaces}[o]
            ok, r = outcome(f)
            if not ok:
                e['exc'] = errtxt(r)
            elif o == 'unmarked':
                e['ret'] = [int(i) for i in r]
        elif o in ('prepare', 'write'):
            ver = 3 if dof else op['ver']
            e = {'op': 'prepare', 'exc': ''}
            ok, w = outcome(writer_of(ver), mesh, endian=op.get('endian', 'native'))
            if not ok:
                e['exc'] = errtxt(w)
            elif o == 'write':
                if not finish(e, mesh, ev):
                    break
                fname = f'{wd}/{cid}-{nf}.ic3'
                nf += 1
                e = {'op': 'write', 'ver': ver, 'endian': op['endian'], 'exc': '', 'file': ic3fmt.parse(b'')}
                ok, r = outcome(w.write_data, fname)
                if not ok:
                    e['exc'] = errtxt(r)
                else:
                    with open(fname, 'rb') as f:
                        e['file'] = ic3fmt.parse(f.read())
        elif o == 'read':
            import cfdtools.ic3.reader_legacy as rl

            e = {'op': 'read', 'exc': '', 'how': op['how']}
            if op['how'] == 'same':
                e['src'] = len(ev)
            else:
                with open(fname, 'rb') as f:
                    b = permute(f.read(), op['how'], rng)
                fname = f'{wd}/{cid}-{nf}.ic3'
                nf += 1
                with open(fname, 'wb') as f:
                    f.write(b)
                e['file'] = ic3fmt.parse(b)

            def read():
                r = rl.reader(fname, cIntegrity=rng.random() < 0.5)
                r.read_data()
                return r.export_mesh()

            ok, mesh = outcome(read)
            if not ok:
                e['exc'] = errtxt(mesh)
                mesh = None
        if not finish(e, mesh, ev):
            break
    return {'id': cid, 'ev': ev}


def finish(e, mesh, ev):
    """record the event with the state of the mesh after it; False when the life ends there"""
    if not e.get('exc'):
        ok, post = outcome(proj.p_mesh, mesh)
        if ok:
            e['post'] = post
        else:
            e['exc'] = 'state: ' + errtxt(post)
    ev.append(e)
    return not e.get('exc')


def longest(plans):
    """drop plans that are the beginning of another one"""
    keys = [tuple(str(o) for o in p) for p in plans]
    heads = set()
    for k in keys:
        for i in range(1, len(k)):
            heads.add(k[:i])
    return [p for p, k in zip(plans, keys) if k not in heads]


# ---------------------------------------------------------------- fabricated files
def fabricated(sc, rng):
    """file content from a scenario of GenIc3.tla"""
    no, fa, cv = sc['no'], sc['fa'], sc['cv']
    nb = rng.randrange(1, fa + 1)
    faces = []
    for i in range(fa):
        nodes = rng.sample(range(no), rng.choice([3, 4]) if no > 3 else 3)
        faces.append((nodes, (rng.randrange(cv), -1 if i < nb else rng.randrange(cv))))
    k = rng.randrange(fa)
    faces[k] = (faces[k][0], (cv - 1, faces[k][1][1]))
    zones, a = [], 0
    while a < nb:
        b = rng.randrange(a, nb)
        kind = rng.choice([1, 1, 2, 3, 4, 5])
        zones.append((f'zone {len(zones)}', kind, a, b, [rng.uniform(-1, 1) for _ in range(rng.choice([3, 16]))] if kind > 1 else []))
        a = b + 1
    rng.shuffle(zones)
    if nb < fa:
        zones.append(('internal-domain', 6, nb, fa - 1, []))
    fields = []
    for kd in sorted(sc['kinds']):
        for j in range(rng.choice([1, 1, 2])):
            n = {'NO': no, 'CV': cv * sc['ndof']}[kd[:2]] * (3 if kd.endswith('D3') else 9 if kd.endswith('D33') else 1)
            v = [rng.randrange(-10 ** 6, 10 ** 15) for _ in range(n)] if kd.endswith('II1') else [rng.uniform(-5, 5) for _ in range(n)]
            nm = f'{kd.lower()}_{j}'
            fields.append((kd, nm, sc['ndof'], v))
    if rng.random() < 0.3 and {f[0][:2] for f in fields} == {'NO', 'CV'}:  # one name in both places
        f = [[x for x in fields if x[0][:2] == p][0] for p in ('NO', 'CV')]
        fields = [x for x in fields if x not in f] + [(x[0], 'twin') + x[2:] for x in f]
    rng.shuffle(fields)
    npart = rng.randrange(1, 4)
    return {'nnode': no, 'ncell': cv, 'faces': faces, 'zones': zones, 'xyz': [[rng.uniform(-1, 1) for _ in range(3)] for _ in range(no)],
            'part': (npart, [rng.randrange(npart) for _ in range(cv)]), 'step': rng.choice([0, 7, 2 ** 33]), 'dt': rng.uniform(0, 1),
            'time': rng.uniform(0, 9), 'wgt': [(n, rng.uniform(0, 5)) for n in rng.choice([[], ['RHO_WGT'], ['RHO_WGT', 'U_WGT']])],
            'fields': fields}


ABSTRACT = {'COUNTS': 0, 'NOOFA': 1, 'CVOFA': 1, 'X_NO': 4, 'CV_PART': 4}


def in_order(b, order, rng):
    """the file with its sections in the abstract order of Ic3Chain.tla"""
    secs = [s for s in ic3fmt.raw_sections(b)[3] if s[2] != ic3fmt.CODE['EOF']]
    groups = {i: [] for i in (0, 1, 2, 3, 4, 5)}
    zs = [i for i, s in enumerate(secs) if ic3fmt.IDS.get(s[2]) == 'FA_ZONE']
    for i, s in enumerate(secs):
        kd = ic3fmt.IDS.get(s[2])
        groups[(2 if i == zs[0] else 3) if i in zs else ABSTRACT.get(kd, 5)].append(i)
    res, extra = [], []
    for g in order:
        if g >= 100:
            extra.append((len(res) + len(extra), b'FOREIGN', 77, b'\1' * rng.choice([0, 3, 256, 1000])))
        else:
            rng.shuffle(groups[g])
            res += groups[g]
    return ic3fmt.resection(b, res, extra, None)


def read_case(job):
    """read of a fabricated file, then rewritten and read again"""
    cid, sc, order, seed, wd = job
    rng = random.Random(seed)
    b = ic3fmt.fabricate(sc['ver'], rng.choice('<>'), fabricated(sc, rng))
    if order is not None:
        b = in_order(b, order, rng)
    import cfdtools.ic3.reader_legacy as rl

    ev = []
    fname = f'{wd}/{cid}.ic3'
    with open(fname, 'wb') as f:
        f.write(b)
    for k in range(2):
        if k == 0:
            e = {'op': 'read', 'exc': '', 'file': ic3fmt.parse(b)}
        else:
            e = {'op': 'read', 'exc': '', 'src': len(ev)}

        def read():
            r = rl.reader(fname, cIntegrity=rng.random() < 0.5)
            r.read_data()
            return r.export_mesh()

        ok, mesh = outcome(read)
        if not ok:
            e['exc'] = errtxt(mesh)
        if not finish(e, mesh, ev) or k or 'rw' not in sc:
            break
        e = {'op': 'prepare', 'exc': ''}
        en = rng.choice(['native', 'little', 'big'])
        ok, w = outcome(writer_of(sc['rw']), mesh, endian=en)
        if not ok:
            e['exc'] = errtxt(w)
        if not finish(e, mesh, ev):
            break
        fname = f'{wd}/{cid}-2.ic3'
        e = {'op': 'write', 'ver': sc['rw'], 'endian': en, 'exc': '', 'file': ic3fmt.parse(b'')}
        ok, r = outcome(w.write_data, fname)
        if not ok:
            e['exc'] = errtxt(r)
        else:
            with open(fname, 'rb') as f:
                e['file'] = ic3fmt.parse(f.read())
        if not finish(e, mesh, ev):
            break
    return {'id': cid, 'ev': ev}


def mark_case(job):
    """two marks of MarkAlg.tla on one cell, prepared by a writer or step by step"""
    cid, et, scen, seed = job
    rng = random.Random(seed)
    n = gen.NN[et]
    faces = {'tetra4': [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)],
             'prism6': [(0, 1, 2), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5)]}[et]
    perm = list(range(n))
    rng.shuffle(perm)
    gm = gen.GM([(perm.index(i), i * i, i ** 3) for i in range(n)], [(et, perm)], 3, et)
    mesh, _ = proj.build_mesh(gm, rng)
    ev = []
    finish({'op': 'start', 'exc': ''}, mesh, ev)
    derive = rng.random() < 0.5 or any(m['by'] == 'face' for m in scen)
    if derive:
        e = {'op': 'derive', 'exc': ''}
        ok, r = outcome(mesh.make_face_connectivity)
        if not ok:
            e['exc'] = errtxt(r)
        if not finish(e, mesh, ev):
            return {'id': cid, 'ev': ev}
    num = {}
    if derive:
        num = {frozenset(w): i for i, w in mesh._faces['boundary']['face2node'].index_elem_tuples()}
    for k, m in enumerate(scen):
        if m['by'] == 'node':
            proj.add_mark(mesh, f'm{k}', 'bdnode', [perm[i] for i in m['set']])
        else:
            idx = [num[frozenset(perm[i] for i in faces[g - 1])] for g in m['claim']]
            rng.shuffle(idx)
            proj.add_mark(mesh, f'm{k}', 'bdface', idx, as_range=rng.random() < 0.5)
    finish({'op': 'start', 'exc': ''}, mesh, ev)
    steps = ['prepare'] if not derive or rng.random() < 0.5 else ['convert', 'unmarked', 'reindex', 'prepare']
    for o in steps:
        e = {'op': o, 'exc': ''}
        f = {'convert': mesh.bocomarks_set_node_to_face, 'unmarked': mesh.make_unmarked_BC, 'reindex': mesh.reindex_boundaryfaces,
             'prepare': lambda: writer_of(rng.choice([2, 3]))(mesh)}[o]
        ok, r = outcome(f)
        if not ok:
            e['exc'] = errtxt(r)
        elif o == 'unmarked':
            e['ret'] = [int(i) for i in r]
        if not finish(e, mesh, ev):
            break
    return {'id': cid, 'ev': ev}
