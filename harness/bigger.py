"""Large meshes, series and lists for the other properties, compared by digests (BigTrace.tla)."""
import contextlib
import io
import os
import random
import shutil

import numpy as np

import big
from big import box, canon, dig, ordered, xyz
from common import errtxt, outcome


def event(f, op, dims=()):
    """one judged step: f gives its pairs"""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), np.errstate(all='ignore'):
        ok, r = outcome(f)
    return {'op': op, 'exc': '' if ok else errtxt(r), 'dims': list(dims), 'n': [], 'pairs': r if ok else []}


def yes(name, b):
    return [name, 'yes', 'yes' if b else 'no']


def folder(wd, cid):
    p = os.path.join(wd, cid)
    os.mkdir(p)
    return p


def sides_of(y):
    return {k: np.flatnonzero(y[:, d] == v) for k, (d, v) in big.SIDES.items()}


# ------------------------------------------------------------------ C08
def plane_case(job):
    """extrusion of a large plane mesh of triangles and quadrangles"""
    cid, (nx, ny, nz), seed = job
    import cfdtools.meshbase._connectivity as conn
    import cfdtools.meshbase._mesh as _mesh

    nr = np.random.RandomState(seed % (1 << 31))
    nn = (nx + 1) * (ny + 1)
    perm = nr.permutation(nn)
    ij = np.stack(np.meshgrid(np.arange(nx + 1), np.arange(ny + 1), indexing='ij'), -1).reshape(-1, 2)
    xy = np.empty((nn, 2))
    xy[perm] = ij
    at = lambda i, j: perm[i * (ny + 1) + j]
    I, J = [a.ravel() for a in np.meshgrid(np.arange(nx), np.arange(ny), indexing='ij')]
    q = np.stack([at(I, J), at(I + 1, J), at(I + 1, J + 1), at(I, J + 1)], 1)
    cut = nr.rand(len(q)) < 0.4
    t = np.concatenate([q[cut][:, [0, 1, 2]], q[cut][:, [0, 2, 3]]])
    q = q[~cut]
    q, t = q[nr.permutation(len(q))], t[nr.permutation(len(t))]
    m = _mesh.Mesh(ncell=len(q) + len(t), nnode=nn)
    x3 = np.concatenate([xy, np.zeros((nn, 1))], 1)
    m.set_nodescoord_nd(x3.copy())
    num = nr.permutation(len(q) + len(t))
    c = conn.elem_connectivity()
    c.add_elems('quad4', q, conn.indexlist(ilist=num[:len(q)].tolist()))
    c.add_elems('tri3', t, conn.indexlist(ilist=num[len(q):].tolist()))
    m.set_cell2node(c)
    sides = {'W': xy[:, 0] == 0, 'E': xy[:, 0] == nx, 'S': xy[:, 1] == 0, 'N': xy[:, 1] == ny}
    for k, s in sides.items():
        b = _mesh.submeshmark(k)
        b.geodim = 'bdnode'
        b.type = 'boundary'
        b.properties['periodic_transform'] = None
        b.index = conn.indexlist(ilist=np.flatnonzero(s).tolist())
        m.add_boco(b)
    z = np.cumsum(0.5 + nr.rand(nz + 1))

    def extrude():
        e = m.export_extruded(extrude=z)
        want = np.concatenate([np.concatenate([xy, np.full((nn, 1), v)], 1) for v in z])
        p = [['nodes', dig(want), dig(xyz(e))]]
        allnum = []
        for base, et, b in ((q, 'hexa8', num[:len(q)]), (t, 'prism6', num[len(q):])):
            d = dict(e._cell2node.items())[et]
            rows = np.asarray(d['elem2node'], dtype=np.int64)
            allnum += [int(i) for i in d['index'].list()]
            w = np.concatenate([np.concatenate([base, base + nn], 1) + k * nn for k in range(nz)])
            p.append([et, dig(canon(w)), dig(canon(rows))])
        p.append(yes('numbers', sorted(allnum) == list(range(nz * (len(q) + len(t))))))
        p.append(['counts', f'{len(want)} {nz * (len(q) + len(t))}', f'{int(e.nnode)} {int(e.ncell)}'])
        for k, s in sides.items():
            w = np.concatenate([np.flatnonzero(s) + i * nn for i in range(nz + 1)])
            p.append([f'mark {k}', dig(np.sort(w)), dig(np.sort(np.array([int(i) for i in e._bocos[k].index.list()])))])
        for k, s in (('fluid0', 0), ('fluid1', nz)):
            p.append([f'mark {k}', dig(np.arange(nn) + s * nn), dig(np.sort(np.array([int(i) for i in e._bocos[k].index.list()])))])
        e.make_face_connectivity()
        e.bocomarks_set_node_to_face()
        nb = {'W': ny * nz, 'E': ny * nz, 'S': nx * nz, 'N': nx * nz, 'fluid0': len(q) + len(t), 'fluid1': len(q) + len(t)}
        for k, v in nb.items():
            p.append([f'faces of {k}', str(v), str(len(e._bocos[k].index.list()))])
        p.append(yes('all faces are marked', not e.list_unmarked_index()))
        return p

    return {'id': cid, 'ev': [event(extrude, 'extrude', (nx, ny, nz))]}


# ------------------------------------------------------------------ C10, C11
def grid_pairs(m, y, cells, sides, types=('hexa8',)):
    p = [['coordinates', dig(y), dig(xyz(m))], ['cells', dig(canon(cells)), dig(canon(ordered(m._cell2node)))]]
    p.append(['counts', f'{len(y)} {len(cells)}', f'{int(m.nnode)} {int(m.ncell)}'])
    for k, s in sides.items():
        b = m._bocos.get(k)
        got = [] if b is None else sorted({int(i) for i in b.index.list()})
        p.append([f'mark {k}', dig(s), dig(np.array(got, dtype=int))])
    p.append(['marks', ' '.join(sorted(sides)), ' '.join(sorted(str(k) for k in m._bocos))])
    return p


def quads(y, cells, exp):
    """boundary quadrangles by side"""
    return {k: exp[0][:, :4][np.all(y[exp[0][:, :4], d] == v, axis=1)] for k, (d, v) in big.SIDES.items()}


def gmsh_case(job):
    """a large box in a GMSH file"""
    cid, dims, seed, wd, ver = job
    from cfdtools.gmsh import reader

    rng = random.Random(seed)
    wd = folder(wd, cid)
    g, y, cells = box(dims, rng)
    coords = xyz(g)
    q = quads(y, cells, big.expected(y, cells))
    step = rng.choice([1, 1, 3])  # tags without and with gaps
    tag = step * np.arange(len(y)) + rng.choice([1, 1, 70000])
    o = ['$MeshFormat', f'{ver} 0 8', '$EndMeshFormat', '$PhysicalNames', '7']
    o += [f'2 {k + 1} "{n}"' for k, n in enumerate(q)] + ['3 7 "fluid"', '$EndPhysicalNames']
    nodes = [f'{t} {a!r} {b!r} {c!r}' for t, (a, b, c) in zip(tag.tolist(), coords.tolist())]
    if ver == '2.2':
        o += ['$Nodes', str(len(y))] + nodes + ['$EndNodes', '$Elements', str(len(cells) + sum(map(len, q.values())))]
        n = 0
        for code, group, conn in [(3, k + 1, f) for k, f in enumerate(q.values())] + [(5, 7, cells)]:
            for r in tag[conn].tolist():
                n += 1
                o.append(f'{n} {code} 2 {group} {group} ' + ' '.join(map(str, r)))
    else:
        o += ['$Entities', '0 0 6 1'] + [f'{k + 1} 0 0 0 1 1 1 1 {k + 1} 0' for k in range(6)] + ['1 0 0 0 1 1 1 1 7 0', '$EndEntities']
        o += ['$Nodes', f'1 {len(y)} {tag[0]} {tag[-1]}', f'3 1 0 {len(y)}'] + [str(t) for t in tag] + [s.split(' ', 1)[1] for s in nodes] + ['$EndNodes']
        tot = len(cells) + sum(map(len, q.values()))
        o += ['$Elements', f'7 {tot} 1 {tot}']
        n = 0
        for d, ent, code, conn in [(2, k + 1, 3, f) for k, f in enumerate(q.values())] + [(3, 1, 5, cells)]:
            o.append(f'{d} {ent} {code} {len(conn)}')
            for r in tag[conn].tolist():
                n += 1
                o.append(f'{n} ' + ' '.join(map(str, r)))
    path = os.path.join(wd, 'm.msh')
    with open(path, 'w') as f:
        f.write('\n'.join(o + ['$EndElements', '']))

    def read():
        r = reader(path)
        r.read_data()
        return grid_pairs(r.export_mesh(), coords, cells, sides_of(y))

    ev = [event(read, f'gmsh {ver}', dims)]
    shutil.rmtree(wd)
    return {'id': cid, 'ev': ev}


def cgns_case(job):
    """a large box in a CGNS file: conditions on nodes, faces, ranges"""
    cid, dims, seed, wd = job
    import cgnsfmt
    from cfdtools.cgns import cgnsMesh

    rng = random.Random(seed)
    wd = folder(wd, cid)
    g, y, cells = box(dims, rng)
    coords = xyz(g)
    q = quads(y, cells, big.expected(y, cells))
    cut = rng.randrange(1, len(cells))
    secs = [('hexa8', cells[:cut]), ('hexa8', cells[cut:])] + [('quad4', f) for f in q.values()]
    rng.shuffle(secs)
    first, out, ranges = 1, [], []
    for k, (t, c) in enumerate(secs):
        out.append({'name': f'S{k:02d}', 'type': t, 'first': first, 'conn': (c + 1).tolist()})
        ranges.append((t, c, first))
        first += len(c)
    bcs = []
    for name, f in q.items():
        a = [r for t, c, r in ranges if c is f][0]
        how = rng.choice(['vlist', 'frange', 'flist', 'erange'])
        c = {'name': name, 'kind': 'BCWall', 'group': 'BC_t'}
        if how == 'vlist':
            c.update(how='list', loc='Vertex', index=(np.unique(f) + 1).tolist())
        elif how == 'flist':
            c.update(how='list', loc='FaceCenter', index=list(range(a, a + len(f))))
        else:
            c.update(how='range' if how == 'frange' else 'erange', index=[a, a + len(f) - 1])
            if how == 'frange':
                c['loc'] = 'FaceCenter'
        bcs.append(c)
    path = os.path.join(wd, 'm.cgns')
    cgnsfmt.write(path, [{'name': 'Base', 'cell_dim': 3, 'zones': [{'name': 'Zone', 'coords': coords.tolist(), 'ncell': len(cells), 'sections': out, 'bcs': bcs, 'int': rng.choice([np.int32, np.int64])}]}])

    def read():
        r = cgnsMesh(path)
        r.read_data()
        return grid_pairs(r.export_mesh(), coords, cells, sides_of(y))

    ev = [event(read, 'cgns', dims)]
    shutil.rmtree(wd)
    return {'id': cid, 'ev': ev}


# ------------------------------------------------------------------ C12, C13, C14
def pv_grid(points, cells, fields, time=None):
    import pyvista as pv

    g = pv.UnstructuredGrid(np.concatenate([np.full((len(cells), 1), 8), cells], 1).ravel(), np.full(len(cells), 12, dtype=np.uint8), points)
    for k, v in fields.items():
        g.cell_data[k] = v
    if time is not None:
        g.field_data['TimeValue'] = np.array([time])
    return g


def lattice(dims):
    """points and cells of a box in natural order"""
    ni, nj, nk = dims
    n = np.arange((ni + 1) * (nj + 1) * (nk + 1)).reshape(ni + 1, nj + 1, nk + 1)
    o = lambda a, b, c: n[a:ni + a, b:nj + b, c:nk + c].ravel()
    cells = np.stack([o(0, 0, 0), o(1, 0, 0), o(1, 1, 0), o(0, 1, 0), o(0, 0, 1), o(1, 0, 1), o(1, 1, 1), o(0, 1, 1)], 1)
    p = np.stack(np.meshgrid(*[np.arange(d + 1.0) for d in dims], indexing='ij'), -1).reshape(-1, 3)
    return p, cells


def series_case(job):
    """files of many cells, in another order each, read as a series, dumped"""
    cid, dims, seed, wd = job
    import cfdtools.vtk as vtk
    import h5py

    nr = np.random.RandomState(seed % (1 << 31))
    wd = folder(wd, cid)
    p, c0 = lattice(dims)
    n = len(c0)
    first = nr.permutation(n)
    files, want = [], []
    for k in range(3):
        order = first if k == 0 else nr.permutation(n)
        rank = nr.permutation(len(p))  # nodes too
        q = np.empty_like(p)
        q[rank] = p
        f = {'P': nr.standard_normal(n), 'U': nr.standard_normal((n, 3)), 'I': nr.randint(0, 1 << 30, n)}
        want.append({x: v[first] for x, v in f.items()})
        path = os.path.join(wd, f'f{k}.vtu')
        pv_grid(q, rank[c0[order]], {x: v[order] for x, v in f.items()}, 0.5 * k).save(path)
        files.append(path)
        if k == 0:
            mesh = (q, rank[c0[order]])

    def read():
        vl = vtk.vtkList(files, verbose=False)
        same = vl.check_order()
        vl.read()
        pairs = [yes('order of the files is not the same', not same)]
        for k, w in enumerate(want):
            d = dict(vl._data._datalist[k].items())
            pairs += [[f'file {k}: {x}', dig(v), dig(d[x]) if x in d else 'none'] for x, v in w.items()]
            pairs.append([f'file {k}: time', repr(0.5 * k), repr(float(np.ravel(d['time'])[0]))])
        out = vl.dumphdf(os.path.join(wd, 'd.h5'))
        with h5py.File(out, 'r') as h:
            pairs += [['dump: nodes', dig(mesh[0]), dig(h['mesh/nodes'][()])], ['dump: cells', dig(mesh[1]), dig(h['mesh/cells/hexa8'][()])]]
            for k, w in enumerate(want):
                s = h['datalist'][sorted(h['datalist'])[k]]
                pairs += [[f'dump: file {k}: {x}', dig(v), dig(s[x][()]) if x in s else 'none'] for x, v in w.items()]
        return pairs

    ev = [event(read, 'series', dims)]
    shutil.rmtree(wd)
    return {'id': cid, 'ev': ev}


def z_case(job):
    """average of a large grid whose cells are in any order"""
    cid, dims, seed = job
    import cfdtools.vtk as vtk

    nr = np.random.RandomState(seed % (1 << 31))
    p, c0 = lattice(dims)
    n, nk = len(c0), dims[2]
    order = nr.permutation(n)
    v = nr.randint(-99, 100, (n, 3)).astype(float)
    s = nr.randint(-99, 100, n).astype(float)
    g = pv_grid(p, c0[order], {'U': v[order], 'P': s[order]})

    def average():
        r = vtk.vtkMesh(pvmesh=g).vtk_zconvolution(rms=True, snapshot=True, nmode=1).pyvista_grid
        # columns: cells of the natural order are grouped by column
        col = lambda a: a.reshape((n // nk, nk) + a.shape[1:])
        ce = np.asarray(r.cell_centers().points)
        at = (np.floor(ce[:, 0]) * dims[1] + np.floor(ce[:, 1])).astype(int)
        pairs = [['cells', str(n // nk), str(int(r.n_cells))], yes('columns', np.array_equal(np.sort(at), np.arange(n // nk))), yes('first plane', np.all(ce[:, 2] < 1)),
                 ['points', str((dims[0] + 1) * (dims[1] + 1) * 2), str(int(r.n_points))]]
        for x, a in (('U', v), ('P', s)):
            mean, rms = col(a).mean(1), col(a).std(1)
            if x + '_rms' in r.cell_data.keys():
                pairs.append(yes(f'rms of {x}', np.allclose(r.cell_data[x + '_rms'], rms[at], atol=1e-8)))
            else:
                pairs.append([f'rms of {x}', 'there', 'no'])
            pairs.append(yes(f'mean of {x}', x + '_avg' in r.cell_data.keys() and np.allclose(r.cell_data[x + '_avg'], mean[at], atol=1e-8)))
            pairs.append(yes(f'snapshot of {x}', x in r.cell_data.keys() and np.array_equal(r.cell_data[x], col(a)[:, 0][at])))
            amp = np.abs(np.fft.rfft(col(a), axis=1, norm='ortho')[:, 1])
            pairs.append(yes(f'mode of {x}', x + '_k1' in r.cell_data.keys() and np.allclose(r.cell_data[x + '_k1'], amp[at], atol=1e-6)))
        return pairs

    return {'id': cid, 'ev': [event(average, 'average', dims)]}


def dump_case(job):
    """a large mesh to VTK, HDF5 and back"""
    cid, dims, seed, wd = job
    import cfdtools.vtk as vtk
    import h5py
    import pyvista as pv
    from cfdtools.hdf5 import h5File

    rng = random.Random(seed)
    wd = folder(wd, cid)
    g, y, cells = box(dims, rng)
    coords = xyz(g)
    look = lambda q: [dig(np.asarray(q.points, dtype=float)), dig(np.asarray(q.cells).reshape(-1, 9)[:, 1:]), dig(np.asarray(q.celltypes).astype(int))]
    ref = [dig(coords), dig(cells), dig(np.full(len(cells), 12))]
    both = lambda what, got: [[f'{what}: {k}', a, b] for k, a, b in zip(('points', 'cells', 'types'), ref, got)]

    def run():
        vm = vtk.vtkMesh(g)
        pairs = both('grid', look(vm.pyvista_grid))
        f = os.path.join(wd, 'm.vtu')
        vm.write_data(f)
        pairs += both('file', look(pv.read(f))) + both('read', look(vtk.vtkMesh().read(f).pyvista_grid))
        out = vm.dumphdf(os.path.join(wd, 'm.h5'), **rng.choice([{}, {'compression': 'gzip'}, {'chunks': True}]))
        with h5py.File(out, 'r') as h:
            pairs += [['dump: nodes', ref[0], dig(h['mesh/nodes'][()])], ['dump: cells', ref[1], dig(h['mesh/cells/hexa8'][()])]]
        h = h5File(out)
        h.open()
        w = vtk.vtkMesh()
        w.importhdfgroup(h['mesh'])
        h.close()
        pairs += both('import', look(w.pyvista_grid))
        m = vm.export_mesh()
        pairs += [['mesh: coordinates', ref[0], dig(xyz(m))], ['mesh: cells', ref[1], dig(ordered(m._cell2node))]]
        return pairs

    ev = [event(run, 'dump', dims)]
    shutil.rmtree(wd)
    return {'id': cid, 'ev': ev}


# ------------------------------------------------------------------ C17
def lists_case(job):
    """long index lists and connectivities"""
    cid, n, seed = job
    import cfdtools.meshbase._connectivity as conn

    rng = random.Random(seed)
    nr = np.random.RandomState(seed % (1 << 31))

    def run():
        pairs = []
        shift = rng.choice([0, 7, 1 << 20])
        base = np.arange(n) + shift
        odd = base.copy()
        i, j = rng.randrange(1, n - 1), rng.randrange(1, n - 1)
        odd[[i, j]] = odd[[j, i]]
        twice = base.copy()
        twice[i] = twice[i - 1]
        for name, s in (('run', base), ('exchanged', odd), ('repeated', twice), ('any', nr.permutation(n))):
            x = conn.indexlist(ilist=s.tolist() if rng.random() < 0.5 else s.copy())
            pairs += [[f'{name}: list', dig(s), dig(x.list())], [f'{name}: shifted', dig(s + 5), dig(x.shift(5).list())], [f'{name}: size', str(n), str(int(x.size))],
                      [f'{name}: joined', dig(np.concatenate([s, base])), dig((x + conn.indexlist(irange=[int(base[0]), int(base[-1])])).list())]]
            x.compress()
            pairs += [[f'{name}: compressed', dig(s), dig(x.list())], [f'{name}: kind', 'range' if np.array_equal(s, base) else 'list', str(x.type)]]
            x.append(base[:3].tolist())
            pairs.append([f'{name}: appended', dig(np.concatenate([s, base[:3]])), dig(x.list())])
        # a connectivity of two types, numbered in any order
        nt = rng.randrange(1, n)
        num = nr.permutation(n)
        t, q = nr.randint(0, 1 << 30, (nt, 3)), nr.randint(0, 1 << 30, (n - nt, 4))
        c = conn.elem_connectivity()
        cut = rng.randrange(0, nt)
        parts = [('tri3', t[:cut], num[:cut]), ('quad4', q, num[nt:]), ('tri3', t[cut:], num[cut:nt])]
        for et, rows, k in parts:
            c.add_elems(et, rows, conn.indexlist(ilist=k.tolist()))
        pairs.append(yes('numbers are checked', c.check()))
        by = np.full((n, 4), -1)
        by[num[:nt], :3], by[num[nt:]] = t, q
        size = np.where(by[:, 3] < 0, 3, 4)
        z = c.exportto_compressedindex()
        pairs += [['compressed form: starts', dig(np.concatenate([[0], np.cumsum(size)])), dig(z._index)], ['compressed form: nodes', dig(by[by >= 0]), dig(z._value)]]
        d = conn.elem_connectivity()
        d.importfrom_compressedindex(z)
        back = np.full((n, 4), -1)
        for _, e in d.items():
            r = np.asarray(e['elem2node'])
            back[np.array(e['index'].list()), :r.shape[1]] = r
        pairs.append(['imported', dig(by), dig(back)])
        m = conn.elem_connectivity()
        m.importfrom_merge((c, d))
        two = np.full((2 * n, 4), -1)
        for _, e in m.items():
            r = np.asarray(e['elem2node'])
            two[np.array(e['index'].list()), :r.shape[1]] = r
        pairs.append(['merged', dig(np.concatenate([by, by])), dig(two)])
        some = rng.sample(range(n), min(n, 500))
        pairs.append(['nodes of elements', dig(np.unique(by[some][by[some] >= 0])), dig(np.sort(np.array(c.nodes_of_indexlist(some))))])
        return pairs

    return {'id': cid, 'ev': [event(run, 'lists', (n, 1, 1))]}


# ------------------------------------------------------------------ C18, C23
def probe_case(job):
    """files of many points and times"""
    cid, (nt, npt), seed, wd = job
    import cfdtools.probes.data as pd

    nr = np.random.RandomState(seed % (1 << 31))
    wd = folder(wd, cid)
    pre = os.path.join(wd, 'pr')
    t = np.cumsum(0.1 + nr.rand(nt))
    v = {k: nr.rand(nt, npt) + 0.5 for k in ('P', 'RHO', 'U-X', 'U-Y', 'U-Z')}
    for k, a in v.items():
        with open(f'{pre}.{k}', 'w') as f:
            for i in range(nt):
                f.write(f'{i} {float(t[i])!r} {npt} ' + ' '.join(map(repr, a[i].tolist())) + '\n')
    x = np.sort(nr.rand(npt))
    with open(f'{pre}.X', 'w') as f:
        for i in range(nt):
            f.write(f'{i} {float(t[i])!r} {npt} ' + ' '.join(map(repr, x.tolist())) + '\n')

    def run():
        d = pd.phydata(pre, verbose=False)
        for k in ('Mach', 'X', 'S', 'U-X'):
            d.check_data(k, prefix=pre)
        a = d.alldata
        u = np.sqrt(v['U-X'] ** 2 + v['U-Y'] ** 2 + v['U-Z'] ** 2)
        s = np.sqrt(1.4 * v['P'] / v['RHO'])
        near = lambda k, w: yes(k, k in a and np.shape(a[k]) == w.shape and np.allclose(a[k], w, rtol=1e-11))
        return [near('U', u), near('Asound', s), near('Mach', u / s), near('S', np.log(v['P'] / v['RHO'] ** 1.4) / 0.4), ['X', dig(x), dig(a['X'])], ['time', dig(t), dig(a['time'])]] + [[k, dig(w), dig(a[k])] for k, w in v.items()]

    ev = [event(run, 'probe', (nt, npt, 1))]
    shutil.rmtree(wd)
    return {'id': cid, 'ev': ev}


def spectrum_case(job):
    """spectrum of a long series"""
    cid, n, seed = job
    import cfdtools.data as data

    nr = np.random.RandomState(seed % (1 << 31))

    def run():
        t = np.arange(n) * 0.125 + 3
        x = nr.standard_normal(n)
        ds = data.DataSet(Trep='timeevol')
        ds.add_data('time', t.copy())
        ds.add_data('q', x.copy())
        r = ds.dataSet_spectrum()
        f, a = np.asarray(r['freq']).ravel(), np.asarray(r['q']).ravel()
        w = np.abs(np.fft.fft(x))
        return [['frequencies', str(n), str(len(f))], yes('their values', np.allclose(f, np.fft.fftfreq(n, 0.125), rtol=1e-9)), yes('amplitudes', a.shape == w.shape and np.allclose(a, w, atol=1e-6)),
                ['samples', dig(x), dig(ds['q'])], ['times', dig(t), dig(ds['time'])]]

    return {'id': cid, 'ev': [event(run, 'spectrum', (n, 1, 1))]}


# ------------------------------------------------------------------ C06
def cut_case(job):
    """a restart file of many pages, stopped at the end of pages, of buffers, anywhere"""
    cid, dims, seed, wd, ver, ncut = job
    import cfdtools.data as _data
    import cfdtools.ic3.reader_legacy as rl
    import cfdtools.ic3.writerV2 as w2
    import cfdtools.ic3.writerV3 as w3

    rng = random.Random(seed)
    wd = folder(wd, cid)
    g, y, cells = box(dims, rng)
    nd, cd = big.fields(y, cells, rng)
    for kind, given, put in (('nodal', nd, g.set_nodedata), ('cellaverage', cd, g.set_celldata)):
        ds = _data.DataSet(kind)
        for k, v in given.items():
            ds.add_data(k, v)
        put(ds)
    path = os.path.join(wd, 'm.ic3')
    {2: w2, 3: w3}[ver].writer(g).write_data(path)
    size = os.path.getsize(path)
    cuts = {size - 1, size - 256, size - 255, size - 512}
    for b in (4096, 8192, 65536, 1 << 17):
        last = size // b * b
        cuts |= {c for c in (b, last, last - b, rng.randrange(size // b + 1) * b, last - 8) if 0 < c < size}
    while len(cuts) < ncut:
        cuts.add(rng.randrange(1, size))
    cuts = sorted(cuts, reverse=True)[: ncut]  # from the end: the file is cut further and further

    def stop():
        def read():
            r = rl.reader(path)
            r.read_data()
            return r.export_mesh()
        pairs = [['whole file', 'read', 'read' if outcome(read)[0] else 'refused']]
        for c in cuts:
            os.truncate(path, c)
            pairs.append([f'file of {size} bytes stopped at {c}', 'refused', 'read' if outcome(read)[0] else 'refused'])
        return pairs

    ev = [event(stop, f'cut {ver}', dims)]
    shutil.rmtree(wd)
    return {'id': cid, 'ev': ev}
