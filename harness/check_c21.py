"""C21: editing a mesh changes only what is asked."""
import contextlib
import copy
import hashlib
import io
import json
import os
import random

import numpy as np

import gen
import life
import mshfmt
import proj
from common import errtxt, outcome, pmap

ASSUMPTIONS = ['coordinates are multiples of 1/1024 below 2^18 and factors small, so that products are exact',
               'the caller does not change what he gave', 'marks and face tables given are consistent with the mesh']
UNIT = 1024


def ints(xyz):
    a = np.asarray(xyz, dtype=float) * UNIT
    if a.size and (not np.all(np.isfinite(a)) or np.any(a != np.round(a)) or np.max(np.abs(a)) > 2 ** 29):
        return None
    return [[int(v) for v in p] for p in a]


def plain(v):
    if isinstance(v, dict):
        return json.dumps({str(k): plain(x) for k, x in sorted(v.items())})
    return repr(np.asarray(v).tolist())


def params(p):
    return sorted([str(k), plain(v)] for k, v in p.items())


def fields(ds):
    return [[str(n)] + proj.p_arr(v) for n, v in (ds.items() if ds is not None else [])]


def state(mesh):
    m = proj.p_mesh(mesh)
    s = {k: m[k] for k in ('nnode', 'ncell', 'cells', 'int', 'bnd', 'mix', 'nface', 'marks', 'part', 'ndof')}
    s['pts'] = ints(mesh.nodescoord(ndarray=True))
    assert s['pts'] is not None and len(s['pts']) == mesh.nnode, 'coordinates are not those expected'
    s['params'] = params(mesh._params)
    s['nd'], s['cd'] = fields(mesh._nodedata), fields(mesh._celldata)
    s['xyz'], s['state'] = [], {}
    s['hascells'] = mesh._cell2node is not None
    return s


def digest(*arrays):
    h = hashlib.sha1()
    for a in arrays:
        a = np.asarray(a)
        h.update(f'{a.dtype} {a.shape}'.encode() + np.ascontiguousarray(a).tobytes())
    return h.hexdigest()


class Life:
    def __init__(self, rng, wd):
        import cfdtools.meshbase._mesh as _mesh

        self.rng, self.wd = rng, wd
        src = rng.choice(['built', 'built', 'built', 'plane', 'ic3', 'gmsh', 'extruded', 'cube'])
        self.src = src
        if src in ('plane', 'extruded'):
            d = rng.choice([(1, 1), (2, 1), (2, 2)])
            gm = gen.plane_mesh(d[0], d[1], [rng.choice(['Q', 'T0', 'T1']) for _ in range(d[0] * d[1])]).shuffled(rng)
        else:
            gm = life.make_gm(rng.choice(['tetra1', 'pyra1', 'prism1', 'hexa', 'prism', 'small', 'mixed']), rng)
        self.gm = gm
        f = rng.choice([1, 2, 0.125])
        xyz = np.array(gm.coords, dtype=float) * f + rng.choice([0, 0, -1.5])
        if rng.random() < 0.3 and f != 0.125:
            xyz = np.array(gm.coords) * int(f)  # integers
        elif rng.random() < 0.2:
            xyz = xyz.astype(np.float32)
        self.dim = gm.dim
        conn = lambda: proj.build_conn(*self.given[:2], rng)
        self.given = proj.layout(gm, rng, rng.choice(['default', 'split', 'explicit']))
        how = rng.choice(['nd', 'arrays', 'lists', 'columns'])
        self.held = [xyz] if how == 'nd' else [xyz[:, k].copy() for k in range(3)] if how == 'arrays' else [xyz[:, k].tolist() for k in range(3)] if how == 'lists' else [xyz[:, k] for k in range(3)]

        def new():
            m = _mesh.Mesh(ncell=gm.ncell, nnode=gm.nnode)
            m.set_nodescoord_nd(self.held[0]) if how == 'nd' else m.set_nodescoord_xyz(*self.held)
            m.set_cell2node(conn())
            return m

        self.mesh, self.other = new(), new()
        if src == 'cube':
            import cfdtools.meshbase.simple as simple

            n = [rng.choice([1, 2, 4]) for _ in range(3)]
            g = simple.Cube(*n)
            self.mesh, self.other = g.export_mesh(), g.export_mesh()
        elif src == 'extruded':
            self.other = self.mesh
            self.mesh = self.mesh.export_extruded(extrude=[0.0, 0.5, 2.0])
        elif src == 'ic3':
            p = os.path.join(wd, f'{rng.randrange(1 << 60)}.ic3')
            self.mesh.set_params({'step': 3, 'time': 0.5, 'dt': 0.25})
            life.writer_of(rng.choice([2, 3]))(self.mesh).write_data(p)
            import cfdtools.ic3.reader_legacy as rl

            r = rl.reader(p)
            r.read_data()
            self.other, self.mesh = self.mesh, r.export_mesh()
            os.remove(p)
        elif src == 'gmsh':
            p = os.path.join(wd, f'{rng.randrange(1 << 60)}.msh')
            with open(p, 'w') as fid:
                g2 = copy.copy(gm)
                g2.coords = [tuple(float(v) for v in c) for c in np.asarray(xyz, dtype=float)]
                fid.write(mshfmt.simple(g2, []))
            import cfdtools.gmsh as gmsh

            r = gmsh.reader(p)
            r.read_data()
            self.other, self.mesh = self.mesh, r.export_mesh()
            os.remove(p)
        nd, cd, ndof = life.make_fields(rng.choice(['none', 'few', 'nodes', 'cells', 'ints', 'many', 'dof2', 'names']), self.mesh.nnode, self.mesh.ncell, rng)
        life.set_fields(self.mesh, nd, cd, ndof)
        self.arrays = list(nd.values()) + list(cd.values())
        if src in ('built', 'plane') and rng.random() < 0.5:
            self.mesh.set_params({'step': 7, 'wgt': {'rho': 0.5}} if rng.random() < 0.5 else {'time': 0.25})
        self.kept = {}  # tables of faces that were held once

    def others(self):
        return digest(*self.held, *self.arrays) + ' ' + hashlib.sha1(json.dumps(proj.p_mesh(self.other), sort_keys=True).encode()).hexdigest()

    # ---- operations: dictionary of the event without state, or None when it makes no sense here
    def scale(self, op):
        num, den = op['num'], op['den']
        pts = ints(self.mesh.nodescoord(ndarray=True))
        if any(p[a] * num[a] % den or abs(p[a] * num[a]) > 2 ** 28 for p in pts for a in range(3)):
            return None
        f = [n / den if den > 1 or self.rng.random() < 0.5 else n for n in num]
        f = {'list': list, 'tuple': tuple, 'array': np.array}[op['as']](f)
        return {'num': num, 'den': den}, lambda: self.mesh.scale(f)

    def morph(self, op):
        k, kind = op['fn'], op['as']
        pts = ints(self.mesh.nodescoord(ndarray=True))
        if max([abs(v) for p in pts for v in p]) > 2 ** 27:
            return None

        def fn(x, y, z):
            r = {'same': lambda: (x, y, z), 'swap': lambda: (y, x, z), 'shift': lambda: (x + 1, y, z - 0.5), 'shear': lambda: (x + y, y, z - x),
                 'flat': lambda: (x, y, 0 * z), 'copy': lambda: (x, x, z), 'turn': lambda: (z, x, -y)}[k]()
            return [list(v) for v in r] if kind == 'list' else list(r) if kind == 'tuple' else r

        return {'fn': k}, lambda: self.mesh.morph(fn)

    def badmorph(self, op):
        def fn(x, y, z):
            if op['how'] == 'raises':
                raise ZeroDivisionError
            return (x + 1, y + 1) if op['how'] == 'two' else (x + 1, y[:-1], z)

        return {}, lambda: self.mesh.morph(fn)

    def pop(self, op):
        w = op['which']
        ds = self.mesh._nodedata if w == 'nd' else self.mesh._celldata
        names = [n for n, _ in ds.items()]
        other = [n for n, _ in (self.mesh._celldata if w == 'nd' else self.mesh._nodedata).items()]
        name = op['name']
        if name == 'any' and names:
            name = self.rng.choice(names)
        elif name in ('a', 'b'):
            name = self.rng.choice((other or []) + ['rho', names[0].upper() if names else 'x', ''])
        f = self.mesh.pop_nodedata if w == 'nd' else self.mesh.pop_celldata
        return {'which': w, 'name': name}, lambda: {'ret': [] if (r := f(name)) is None else [[name] + proj.p_arr(r)]}

    def addmark(self, op):
        import cfdtools.meshbase._connectivity as conn
        import cfdtools.meshbase._mesh as _mesh

        rng, m = self.rng, self.mesh
        names = list(m._bocos)
        name = rng.choice(names) if op['name'] == 'any' and names else op['name']
        face = op['geodim'] in ('face', 'bdface')
        if face and 'boundary' not in m._faces:
            return None
        pool = sorted(m._faces['boundary']['face2node'].all_index()) if face else list(range(m.nnode))
        if op['size'] == 'rest' and face and all(b.facebased() for b in m._bocos.values()):
            held = {i for n, b in m._bocos.items() for i in b.index.list() if n != name}
            idx = [i for i in pool if i not in held]
        elif op['size'] in ('all', 'rest'):
            idx = pool
        else:
            idx = [] if op['size'] == 'none' else rng.sample(pool, rng.randrange(1, len(pool) + 1))
        b = _mesh.submeshmark(name)
        b.geodim, b.type = op['geodim'], rng.choice(['boundary', 'boundary', 'perio_cart'])
        b.properties['periodic_transform'] = [1.0, 0.0, 0.5] if b.type == 'perio_cart' else None
        run = idx and idx == list(range(idx[0], idx[-1] + 1)) and rng.random() < 0.5
        b.index = conn.indexlist(irange=[idx[0], idx[-1]]) if run else conn.indexlist(ilist=idx)
        mk = {'key': name, 'name': name, 'geodim': b.geodim, 'type': b.type, 'repr': str(b.index.type), 'index': idx, 'per': proj.p_per(b.properties['periodic_transform'])}
        return {'mark': mk}, lambda: m.add_boco(b)

    def dropmark(self, op):
        names = list(self.mesh._bocos)
        name = self.rng.choice(names) if op['name'] == 'any' and names else 'nothing'
        return {'name': name}, lambda: self.mesh.remove_boco(name)

    def addfaces(self, op):
        k, m = op['kind'], self.mesh
        real = {'internal': 'internal', 'boundary': 'boundary', 'mixed': 'mixed'}.get(k)
        if real is None:
            fs = next(iter(self.kept.values()), None)
            if fs is None:
                return None
            k = self.rng.choice(['all', 'Boundary', ''])
        elif real == 'mixed' and {'internal', 'boundary'} <= set(m._faces):
            f2n, f2c = m.export_mixedfaces()
            fs = {'face2node': f2n, 'face2cell': f2c}
        elif real in self.kept:
            fs = self.kept[real]
        else:
            return None
        self.kept.setdefault(k, fs)
        tab = {'has': True, 'f': sorted(proj.p_conn(fs['face2node'])), 'c': proj.p_f2c(fs['face2cell'])}
        return {'kind': k, 'tab': tab}, lambda: m.add_faces(k, fs['face2node'], fs['face2cell'])

    def popfaces(self, op):
        k = op['kind'] if op['kind'] != 'bad' else 'all'
        if k in self.mesh._faces:
            fs = self.mesh._faces[k]
            self.kept[k] = {'face2node': fs['face2node'], 'face2cell': fs['face2cell']}
        return {'kind': k}, lambda: self.mesh.pop_faces(k)

    def grow(self, op):
        c = self.mesh._cell2node
        if c is None:
            return None
        t, d = next(iter(c.items()))
        return {}, lambda: c.add_elems(t, np.array(d['elem2node'])[:1])

    def cells(self, op):
        c = self.mesh._cell2node
        if c is None or self.src == 'ic3' or self.mesh._faces or self.mesh.nnode != self.gm.nnode:
            return None
        new = proj.build_conn(*self.given[:2], self.rng)
        return {'cells': sorted(proj.p_conn(new))}, lambda: self.mesh.set_cell2node(new)

    def check(self, op):
        return {}, lambda: {'ret': bool(self.mesh.check())}

    def params(self, op):
        v = op['value'] if op['key'] in ('time', 'step') else self.rng.choice([op['value'], {'rho': 0.5}, [1.0, 2.0]])
        p = {op['key']: v} if self.rng.random() < 0.7 else {op['key']: v, 'dt': 0.5}
        if op['how'] == 'set':
            return {'how': 'set', 'new': params(p)}, lambda: self.mesh.set_params(dict(p))
        return {'how': 'update', 'new': params(p)}, lambda: self.mesh.update_params(p)

    def part(self, op):
        n = self.rng.randrange(1, 3)
        p = {'npart': n, 'icvpart': np.array([self.rng.randrange(n) for _ in range(self.mesh.ncell)])}
        return {'new': {'has': True, 'npart': n, 'icv': p['icvpart'].tolist()}}, lambda: self.mesh.set_partition(p)

    def query(self, op):
        m, rng = self.mesh, self.rng

        def q():
            k = rng.choice(['print', 'detailed', 'coords', 'index', 'seek', 'str'])
            right = True
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                if k in ('print', 'detailed'):
                    m.printinfo(detailed=k == 'detailed')
                elif k == 'coords':
                    a = m.nodescoord(ndarray=True)
                    right = ints(np.column_stack(m.nodescoord())) == ints(a)
                    a += 1  # a copy, not the coordinates themselves
                elif k == 'index':
                    right = list(map(int, m.list_boco_index())) == [int(i) for b in m._bocos.values() for i in b.index.list()]
                elif k == 'seek' and m._bocos:
                    n = rng.choice(list(m._bocos))
                    right = m.seekmark(n) is m._bocos[n] and m.seekmark(n).name == n
                elif k == 'str':
                    right = all(b.name in str(b) for b in m._bocos.values())
            return {'right': bool(right)}

        return {}, q

    def derive(self, op):
        if self.mesh._cell2node is None or self.mesh.ncell != self.mesh._cell2node.nelem or (self.mesh._bocos and any(b.facebased() for b in self.mesh._bocos.values())):
            return None
        return {}, self.mesh.make_face_connectivity

    def convert(self, op):
        if 'boundary' not in self.mesh._faces:
            return None
        return {}, self.mesh.bocomarks_set_node_to_face

    def unmarked(self, op):
        if 'boundary' not in self.mesh._faces or any(b.nodebased() for b in self.mesh._bocos.values()):
            return None
        return {}, lambda: {'ret': [int(i) for i in self.mesh.make_unmarked_BC()]}

    def bystander(self, op):
        return None


def case(job):
    cid, ops, seed, wd = job
    rng = random.Random(seed)
    ev = [{'op': 'start', 'exc': '', 'others': '', 'post': {}}]
    res = {'id': cid, 'ev': ev}
    ok, lf = outcome(Life, rng, wd)
    if ok:
        ok, st = outcome(state, lf.mesh)
    if not ok:
        ev[0]['exc'] = errtxt(lf if isinstance(lf, BaseException) else st)
        return res
    ev[0].update(post=st, others=lf.others(), src=lf.src)
    todo = list(ops)
    if rng.random() < 0.5:
        todo = [{'op': 'derive'}] + ([{'op': 'addfaces', 'kind': 'mixed'}, {'op': 'derive'}] if rng.random() < 0.15 else []) + todo
    for op in todo:
        r = getattr(lf, op['op'])(op)
        if r is None:
            continue
        e, f = r
        e = dict(e, op=op['op'], exc='')
        ok, v = outcome(f)
        if not ok:
            e['exc'] = errtxt(v)
        elif isinstance(v, dict):
            e.update(v)
        if op['op'] == 'query' and not ok:
            e['right'] = False
        ok, st = outcome(state, lf.mesh)
        if not ok:
            e['exc'] = 'state: ' + errtxt(st)
            e.update(post=ev[-1]['post'], others='?')
            ev.append(e)
            break
        e.update(post=st, others=lf.others())
        ev.append(e)
        if op['op'] == 'grow':  # the mesh is not valid any more
            todo2 = [{'op': 'check'}]
            for o in todo2:
                e = {'op': 'check', 'exc': ''}
                ok, v = outcome(lf.mesh.check)
                e['exc'] = '' if ok else errtxt(v)
                e.update(post=state(lf.mesh), others=lf.others())
                ev.append(e)
            break
    return res


def run(ctx):
    q = ctx.quick
    ctx.mc('EditBox', 'EditBox', dead_ok=('Faced', 'Query', 'Next'))
    scen = ctx.gen('EditBox', 'EditGen', simulate=(1000 if q else 6000, 15))
    wd = ctx.subdir('edits')
    ctx.rng.shuffle(scen)
    cases = pmap(case, [(f'e{i}', s, ctx.rng.randrange(1 << 30), wd) for i, s in enumerate(scen[: 1500 if q else 20000])])
    n = {}
    for c in cases:
        for e in c['ev']:
            n[e['op']] = n.get(e['op'], 0) + 1
    ctx.notes['operations'] = n
    ctx.validate('EditTrace', cases)
