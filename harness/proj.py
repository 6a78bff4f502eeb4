"""Building cfdtools objects from plain data, and projecting them to plain data for TLC."""
import numpy as np

from common import fbits


def memory(a, rng):
    """the same integers held in another way (order in memory, width)"""
    k = rng.randrange(8) if rng is not None else 7
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return np.repeat(a, 2, axis=0)[::2]
    if k == 2:
        return a.astype(np.int32)
    if k == 3:
        return np.ascontiguousarray(a[::-1])[::-1]
    return a


def build_conn(cells, blocks, rng=None):
    """cells: list of (number or None, type, nodes) grouped in blocks: list of lists of positions.
    Every block is one call of add_elems; numbers None = default numbering."""
    import cfdtools.meshbase._connectivity as conn

    c2n = conn.elem_connectivity()
    for blk in blocks:
        et = cells[blk[0]][1]
        arr = memory(np.array([cells[i][2] for i in blk]), rng)
        if cells[blk[0]][0] is None:
            c2n.add_elems(et, arr)
        else:
            num = [cells[i][0] for i in blk]
            if num == list(range(num[0], num[0] + len(num))) and rng is not None and rng.random() < 0.5:
                idx = conn.indexlist(irange=[num[0], num[-1]])
            elif rng is not None and rng.random() < 0.3:
                idx = conn.indexlist(ilist=np.array(num))
            else:
                idx = conn.indexlist(ilist=num)
            c2n.add_elems(et, arr, idx)
    return c2n


def layout(gm, rng, mode):
    """numbering of the cells of gm. Returns (cells with number or None, blocks, numbered cells for the spec)"""
    types = []
    for et, _ in gm.cells:
        if et not in types:
            types.append(et)
    if rng is not None:
        rng.shuffle(types)
    pos = {t: [i for i, (et, _) in enumerate(gm.cells) if et == t] for t in types}
    if mode == 'default':
        blocks = [pos[t] for t in types]
    else:
        blocks = []
        for t in types:
            p = pos[t]
            if len(p) > 1 and rng.random() < 0.6:
                k = rng.randrange(1, len(p))
                blocks += [p[:k], p[k:]]
            else:
                blocks.append(p)
        rng.shuffle(blocks)
    if mode == 'explicit':
        num = list(range(gm.ncell))
        rng.shuffle(num)
    else:
        num = [None] * gm.ncell
        n = 0
        for b in blocks:
            for i in b:
                num[i] = n
                n += 1
    spec = sorted([num[i], et, list(nd)] for i, (et, nd) in enumerate(gm.cells))
    given = [(num[i] if mode == 'explicit' else None, et, list(nd)) for i, (et, nd) in enumerate(gm.cells)]
    return given, blocks, spec


def coords_of(gm, scale=None):
    a = np.array(gm.coords, dtype=float)
    return a if scale is None else a * scale


def build_mesh(gm, rng=None, mode='default', coords=None):
    import cfdtools.meshbase._mesh as _mesh

    given, blocks, spec = layout(gm, rng, mode)
    m = _mesh.Mesh(ncell=gm.ncell, nnode=gm.nnode)
    xyz = coords_of(gm) if coords is None else coords
    if rng is not None and rng.random() < 0.5:
        m.set_nodescoord_nd(xyz)
    else:
        m.set_nodescoord_xyz(xyz[:, 0].copy(), xyz[:, 1].copy(), xyz[:, 2].copy())
    m.set_cell2node(build_conn(given, blocks, rng))
    return m, spec


def add_mark(mesh, name, geodim, index, mtype='boundary', per=None, as_range=False):
    import cfdtools.meshbase._connectivity as conn
    import cfdtools.meshbase._mesh as _mesh

    b = _mesh.submeshmark(name)
    b.geodim = geodim
    b.type = mtype
    b.properties['periodic_transform'] = per
    index = [int(i) for i in index]
    if as_range and index and index == list(range(index[0], index[-1] + 1)):
        b.index = conn.indexlist(irange=[index[0], index[-1]])
    else:
        b.index = conn.indexlist(ilist=index)
    mesh.add_boco(b)
    return b


# ------------------------------------------------------------------ projections
def p_conn(con):
    """elem_connectivity -> [[number, type, nodes]...]"""
    res = []
    for et, d in con.items():
        idx = d['index'].list()
        arr = np.asarray(d['elem2node'])
        assert arr.ndim == 2 or arr.size == 0, 'bad shape'
        assert len(idx) == arr.shape[0], 'index and table differ in length'
        for i, row in zip(idx, arr.tolist()):
            res.append([int(i), str(et), [int(n) for n in row]])
    return res


def p_f2c(f2c):
    a = np.asarray(f2c.conn)
    return [[int(v) for v in row] for row in a.tolist()]


def p_faceset(fs):
    return p_conn(fs['face2node']), p_f2c(fs['face2cell'])


def p_coords(mesh):
    x, y, z = (np.asarray(c, dtype=np.float64) for c in mesh.nodescoord())
    return [[fbits(a), fbits(b), fbits(c)] for a, b, c in zip(x, y, z)]


def p_arr(a):
    a = np.asarray(a)
    if a.dtype.kind in 'iu':
        return [a.dtype.name, list(map(int, a.shape)), [str(int(v)) for v in a.ravel().tolist()]]
    if a.dtype.kind == 'f':
        return [a.dtype.name, list(map(int, a.shape)), [fbits(v) for v in a.ravel()]]
    return [str(a.dtype), list(map(int, a.shape)), [str(v) for v in a.ravel().tolist()]]


def p_index(il):
    return [int(i) for i in il.list()]


def p_per(v):
    return [] if v is None or isinstance(v, str) else [fbits(x) for x in np.asarray(v, dtype=float).ravel()]


def p_marks(mesh, order=True):
    res = []
    for key, b in mesh._bocos.items():
        res.append({'key': str(key), 'name': b.name, 'geodim': str(b.geodim), 'type': str(b.properties.get('type')),
                    'repr': str(b.index.type), 'index': p_index(b.index),
                    'per': p_per(b.properties.get('periodic_transform'))})
    return res


def p_data(ds):
    """DataSet or dict -> [[name, dtype, shape, tokens]...]"""
    if ds is None:
        return []
    return [[str(n)] + p_arr(v) for n, v in ds.items()]


# ------------------------------------------------------------------ whole mesh
def p_table(mesh, kind):
    if kind not in mesh._faces:
        return {'has': False, 'f': [], 'c': []}
    fs = mesh._faces[kind]
    return {'has': True, 'f': sorted(p_conn(fs['face2node'])), 'c': p_f2c(fs['face2cell'])}


def p_fields(ds):
    res = []
    for n, v in (ds.items() if ds is not None else []):
        dt, sh, tok = p_arr(v)
        ft = [fbits(x) for x in np.asarray(v).ravel()] if dt in ('int64', 'int32') else tok
        res.append([str(n), dt, sh, tok, ft])
    return sorted(res)


def p_state(mesh):
    p = mesh._params
    w = {}
    for k, v in dict(p.get('wgt', {})).items():
        w[str(k).lower()] = fbits(v)
    for k, v in p.items():
        if k.endswith('_wgt'):
            w[k[:-4].lower()] = fbits(v)
    return {'stepn': str(int(p.get('step', 0))), 'dt': fbits(p.get('dt', 0)), 'time': fbits(p.get('time', 0)),
            'wgt': sorted([k, v] for k, v in w.items())}


def p_part(mesh):
    part = mesh._cellprop.get('partition')
    if part is None:
        return {'has': False, 'npart': 0, 'icv': []}
    return {'has': True, 'npart': int(part['npart']), 'icv': [int(v) for v in part['icvpart']]}


def p_mesh(mesh):
    """the state of a mesh, as plain data"""
    marks = p_marks(mesh)
    for m in marks:
        assert m['key'] == m['name'], 'mark key'
    c2n = getattr(mesh, '_cell2node', None)
    return {'nnode': int(mesh.nnode), 'ncell': int(mesh.ncell), 'nface': int(mesh.nface), 'xyz': p_coords(mesh),
            'cells': sorted(p_conn(c2n)) if c2n is not None else [],
            'int': p_table(mesh, 'internal'), 'bnd': p_table(mesh, 'boundary'), 'mix': p_table(mesh, 'mixed'),
            'marks': marks, 'part': p_part(mesh), 'state': p_state(mesh),
            'nd': p_fields(mesh._nodedata), 'cd': p_fields(mesh._celldata), 'ndof': int(getattr(mesh._celldata, 'ndof', 1))}
