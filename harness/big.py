"""Boxes of more nodes and faces than 16 bits can count, compared by digests (BigTrace.tla)."""
import hashlib
import os
import random
import shutil

import numpy as np

from common import errtxt, outcome, pmap

SIDES = {'imin': (0, 0.0), 'imax': (0, 1.0), 'jmin': (1, 0.0), 'jmax': (1, 1.0), 'kmin': (2, 0.0), 'kmax': (2, 1.0)}


def sizes(ctx):
    """more than 32767 or 65535 nodes, cells, faces; long in one direction or another; powers of two of nodes or cells"""
    r = [(41, 40, 42)] if ctx.rng.random() < 0.5 else [(33, 47, 44)]
    r += [(15, 15, 15), (16, 16, 16)] if ctx.rng.random() < 0.5 else [(7, 31, 15), (8, 32, 16)]
    return r + ([] if ctx.quick else [(34, 33, 33), (2, 5, 7000), (7000, 4, 3), (3, 23000, 1), (60, 60, 60), (63, 31, 31), (64, 32, 32), (7, 7, 15), (8, 8, 16), (31, 31, 31), (32, 32, 32)])


def judge(ctx, f, jobs):
    """each case in its own process, validated by BigTrace"""
    ctx.validate('BigTrace', pmap(f, jobs))


def dig(*arrays):
    h = hashlib.sha1()
    for a in arrays:
        a = np.asarray(a)
        if a.dtype.kind in 'iub':
            a = a.astype('<i8')
        elif a.dtype.kind == 'f':
            a = a.astype('<f8')
        h.update(f'{a.shape}'.encode() + np.ascontiguousarray(a).tobytes())
    return h.hexdigest()[:16]


def ordered(con):
    """(numbers, rows) of a connectivity of one type, by number"""
    num, rows = [], []
    for _, d in con.items():
        num += [int(i) for i in d['index'].list()]
        rows.append(np.asarray(d['elem2node'], dtype=np.int64))
    num, rows = np.array(num, dtype=np.int64), np.concatenate(rows)
    assert len(num) == len(rows) and np.array_equal(np.sort(num), np.arange(len(num))), 'numbers'
    return rows[np.argsort(num, kind='stable')]


def walks(f):
    k = np.argmin(f, axis=1)
    n = f.shape[1]
    return np.take_along_axis(f, (k[:, None] + np.arange(n)[None, :]) % n, axis=1)


def canon(rows):
    return rows[np.lexsort(rows.T[::-1])]


def face_rows(mesh):
    """canonical rows in the merged numbering"""
    if 'mixed' in mesh._faces and 'boundary' not in mesh._faces:  # as read from a file
        mf, f2c = mesh._faces['mixed']['face2node'], mesh._faces['mixed']['face2cell']
    else:
        mf, f2c = mesh.export_mixedfaces()
    return np.concatenate([walks(ordered(mf)), np.asarray(f2c.conn, dtype=np.int64)], axis=1)


def xyz(mesh):
    return np.stack([np.asarray(v, dtype=float) for v in mesh.nodescoord()], axis=1)


def box(dims, rng):
    """a box whose nodes are moved and numbered anew, with marks of its sides"""
    import cfdtools.meshbase._connectivity as conn
    import cfdtools.meshbase._mesh as _mesh
    import cfdtools.meshbase.simple as simple

    m = simple.Cube(*dims).export_mesh()
    x = xyz(m)
    cells = ordered(m._cell2node)
    nr = np.random.RandomState(rng.randrange(1 << 31))
    perm = nr.permutation(len(x))
    y = np.empty_like(x)
    y[perm] = x
    order = nr.permutation(len(cells))
    cells = perm[cells[order]]
    g = _mesh.Mesh(ncell=len(cells), nnode=len(x))
    g.set_nodescoord_nd(y * (1 + 1e-3) + 1e-9)
    c = conn.elem_connectivity()
    c.add_elems('hexa8', cells)
    g.set_cell2node(c)
    for name, (d, v) in SIDES.items():
        b = _mesh.submeshmark(name)
        b.geodim = 'node'
        b.type = 'boundary'
        b.properties['periodic_transform'] = None
        b.index = conn.indexlist(ilist=np.flatnonzero(y[:, d] == v).tolist())
        g.add_boco(b)
    return g, y, cells


def expected(y, cells):
    """the faces of the box, from its cells (CGNS order), as canonical rows"""
    loc = [[0, 3, 2, 1], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [0, 4, 7, 3], [4, 5, 6, 7]]
    w = np.concatenate([cells[:, s] for s in loc])
    own = np.tile(np.arange(len(cells)), 6)
    key = np.sort(w, axis=1)
    o = np.lexsort(key.T[::-1])
    key, w, own = key[o], w[o], own[o]
    same = np.all(key[1:] == key[:-1], axis=1)
    first = np.flatnonzero(same)
    twin = np.zeros(len(w), bool)
    twin[first] = twin[first + 1] = True
    b = np.flatnonzero(~twin)
    bnd = np.concatenate([walks(w[b]), own[b][:, None], np.full((len(b), 1), -1)], axis=1)
    # an internal face can be given from either side
    a, z = w[first], own[first]
    inner = np.concatenate([np.sort(a, axis=1), np.sort(np.stack([z, own[first + 1]], axis=1), axis=1)], axis=1)
    out = dict(zip(map(tuple, np.concatenate([walks(w), own[:, None]], axis=1).tolist()), range(len(w))))
    return canon(bnd), canon(inner), out


def inner_rows(rows):
    return canon(np.concatenate([np.sort(rows[:, :4], axis=1), np.sort(rows[:, 4:], axis=1)], axis=1))


def faces_pairs(mesh, y, exp, what):
    bnd, inner, out = exp
    rows = face_rows(mesh)
    isb = rows[:, 5] == -1
    outward = all(tuple(r[:5]) in out for r in rows.tolist())
    pairs = [[what + ': boundary faces', dig(bnd), dig(canon(rows[isb]))], [what + ': internal faces', dig(inner), dig(inner_rows(rows[~isb]))],
             [what + ': faces seen from their first cell', 'yes', 'yes' if outward else 'no'],
             [what + ': boundary faces come first', 'yes', 'yes' if np.all(isb[:isb.sum()]) else 'no']]
    n = [len(y), int(mesh.ncell), int((~isb).sum()), int(isb.sum())]
    return rows, pairs, n


def marks_pairs(mesh, rows, y, exp, what):
    bnd = exp[0]
    pairs = []
    for name, (d, v) in SIDES.items():
        s = np.all(y[bnd[:, :4], d] == v, axis=1)
        b = mesh._bocos.get(name)
        got = 'no mark' if b is None else dig(canon(rows[np.array([int(i) for i in b.index.list()], dtype=int)])) if str(b.geodim) in ('bdface', 'intface', 'face') else str(b.geodim)
        pairs.append([f'{what}: mark {name}', dig(canon(bnd[s])), got])
    have = [str(k) for k, b in mesh._bocos.items() if str(b.properties.get('type')) != 'internal' and str(b.type) != 'internal']
    pairs.append([what + ': marks', ' '.join(sorted(SIDES)), ' '.join(sorted(have))])
    return pairs


def fields(y, cells, rng, node=True):
    nr = np.random.RandomState(rng.randrange(1 << 31))
    n, c = len(y), len(cells)
    nd = {'ndscal': nr.standard_normal(n), 'ndvec': nr.standard_normal((n, 3))} if node else {}
    return nd, {'RHO': nr.standard_normal(c), 'RHOU': nr.standard_normal((c, 3)), 'RHOE': nr.standard_normal(c), 'TAU_REY': nr.standard_normal((c, 3, 3)) if node else nr.standard_normal((c, 3))}


def faces_case(job):
    """C01, C04: faces of a large box, its marks"""
    cid, dims, seed, _ = job
    rng = random.Random(seed)
    g, y, cells = box(dims, rng)
    exp = expected(y, cells)
    ev = []

    def derive():
        g.make_face_connectivity()
        _, p, n = faces_pairs(g, y, exp, 'derived')
        return {'op': 'derive', 'pairs': p, 'n': n}

    def prepare():
        import cfdtools.ic3.writerV3 as w3
        w = w3.writer(g)
        m = w._mesh
        rows, p, n = faces_pairs(m, y, exp, 'prepared')
        return {'op': 'prepare', 'pairs': p + marks_pairs(m, rows, y, exp, 'prepared'), 'n': n}

    for f in (derive, prepare):
        ok, r = outcome(f)
        ev.append({**(r if ok else {'op': f.__name__, 'pairs': [], 'n': []}), 'exc': '' if ok else errtxt(r), 'dims': list(dims)})
        if not ok:
            break
    return {'id': cid, 'ev': ev}


def file_case(job):
    """C02, C03, C15: a large box through a file"""
    cid, dims, seed, wd, ver = job
    import cfdtools.data as _data

    rng = random.Random(seed)
    wd = os.path.join(wd, cid)
    os.mkdir(wd)
    g, y, cells = box(dims, rng)
    coords = xyz(g).copy()
    exp = expected(y, cells)
    nd, cd = fields(y, cells, rng, ver != 4)
    dn, dc = _data.DataSet('nodal'), _data.DataSet('cellaverage')
    for k, v in nd.items():
        dn.add_data(k, v.copy())
    for k, v in cd.items():
        dc.add_data(k, v.copy())
    g.set_nodedata(dn)
    g.set_celldata(dc)
    ev = []

    def write():
        import cfdtools.ic3.writerV2 as w2
        import cfdtools.ic3.writerV3 as w3
        import cfdtools.ic3.writerV4 as w4
        if ver == 4:
            w4.writer(g).write_data(os.path.join(wd, 'm.h5'), os.path.join(wd, 's.h5'))
        else:
            {2: w2, 3: w3}[ver].writer(g, endian=rng.choice(['native', 'little', 'big'])).write_data(os.path.join(wd, 'm.ic3'))

    def read():
        import cfdtools.ic3.reader_legacy as rl
        import cfdtools.ic3.readerV4 as r4
        r = r4.reader(os.path.join(wd, 'm.h5'), os.path.join(wd, 's.h5')) if ver == 4 else rl.reader(os.path.join(wd, 'm.ic3'), cIntegrity=True)
        r.read_data()
        m = r.export_mesh()
        rows, p, n = faces_pairs(m, y, exp, 'read')
        p += marks_pairs(m, rows, y, exp, 'read')
        p.append(['read: coordinates', dig(coords), dig(xyz(m))])
        for want, got, kind in ((nd, m._nodedata, 'node'), (cd, m._celldata, 'cell')):
            have = dict(got.items()) if got is not None else {}
            p.append([f'read: names of {kind} data', ' '.join(sorted(want)), ' '.join(sorted(have))])
            p += [[f'read: {kind} data {k}', dig(v), dig(have[k]) if k in have else 'none'] for k, v in want.items()]
        return {'pairs': p, 'n': n}

    ok, r = outcome(write)
    if ok:
        ok, r = outcome(read)
    ev.append({**(r if ok else {'pairs': [], 'n': []}), 'op': f'file {ver}', 'exc': '' if ok else errtxt(r), 'dims': list(dims)})
    shutil.rmtree(wd)
    return {'id': cid, 'ev': ev}
