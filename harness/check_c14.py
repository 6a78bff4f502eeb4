"""C14: HDF5 dumps, XMF companions and VTK exports hold exactly the mesh and data given."""
import contextlib
import io
import os
import random
import shutil
import xml.etree.ElementTree as ET
from pathlib import Path

import numpy as np

import big
import bigger
import gen
import life
import proj
from check_c12 import VTK, rows, shuffle, values
from common import errtxt, fbits, outcome, pmap

ASSUMPTIONS = ['linear cells of dimension 2 or 3, no two cells with the same nodes', 'no field is called "time", or holds a slash in its name',
               'fields of an XMF file have at most two dimensions', 'volumes are compared for cells on a lattice, with planar sides']
NAME = {v: k for k, v in VTK.items()}
XTYPE = {'Triangle': 'tri3', 'Quadrilateral': 'quad4', 'Tetrahedron': 'tetra4', 'Pyramid': 'pyra5', 'Wedge': 'prism6', 'Hexahedron': 'hexa8'}
XCODE = {4: 'tri3', 5: 'quad4', 6: 'tetra4', 7: 'pyra5', 8: 'prism6', 9: 'hexa8'}
ZIP = {'none': {}, 'gzip': {'compression': 'gzip'}, 'gzip9': {'compression': 'gzip', 'compression_opts': 9}, 'lzf': {'compression': 'lzf'},
       'shuffle': {'compression': 'gzip', 'shuffle': True}, 'chunks': {'chunks': True}}
TIME = {'none': None, 'zero': 0.0, 'value': 0.1, 'negative': -2.5}


def points(a):
    return [','.join(fbits(float(v)) for v in p) for p in np.asarray(a)]


def timed(t):
    return [] if t is None else rows(np.atleast_1d(np.asarray(t, dtype=float)))[0]


def grid(g):
    """what a VTK grid holds"""
    cells = [[NAME[int(t)], [int(n) for n in g.get_cell(i).point_ids]] for i, t in enumerate(g.celltypes)]
    t = g.field_data.get('TimeValue', None)
    return {'points': points(g.points), 'cells': cells, 'fields': [[str(k), rows(g.cell_data[k])] for k in g.cell_data.keys()], 'time': timed(t)}


def hdf(path):
    """what a HDF5 dump holds"""
    import h5py

    with h5py.File(path, 'r') as f:
        h = {'kind': str(f.attrs.get('cfd_datatype')), 'meshtype': str(f['mesh'].attrs.get('meshtype')), 'nodes': points(f['mesh/nodes'][()]),
             'tables': [[k, np.asarray(v[()]).tolist()] for k, v in f['mesh/cells'].items()], 'steps': []}
        for k in sorted(f['datalist']) if 'datalist' in f else []:
            s = f['datalist'][k]
            h['steps'].append({'fields': [[n, rows(v[()])] for n, v in s.items()], 'time': timed(s.attrs.get('time', None))})
    return h


def xmf(path):
    """what a reader of XDMF sees"""
    import h5py

    res = {'valid': True, 'refs': [], 'grids': []}
    try:
        top = ET.parse(path).getroot()
    except ET.ParseError:
        return {**res, 'valid': False}

    def item(el, full):
        el = el.find('DataItem')
        name, _, data = el.text.strip().rpartition(':/') if '.h5:/' not in el.text else (lambda t: (t[0] + '.h5', '', t[1]))(el.text.strip().split('.h5:/', 1))
        name = os.path.join(os.path.dirname(path), name)
        said = [int(v) for v in el.attrib['Dimensions'].split()]
        a = None
        if os.path.exists(name):
            with h5py.File(name, 'r') as f:
                if data in f:
                    a = f[data][()]
        size = [] if a is None else list(a.shape) if full else [int(a.size)]
        res['refs'].append({'found': a is not None, 'said': said, 'size': size})
        return a

    for g in top.findall('./Domain/Grid[@CollectionType="Temporal"]/Grid'):
        r = {'topologies': len(g.findall('Topology')), 'elements': 0, 'points': [], 'cells': [], 'fields': []}
        p = item(g.find('Geometry'), False)
        if p is not None and g.find('Geometry').attrib['GeometryType'] == 'XYZ':
            r['points'] = points(np.reshape(p, (-1, 3)))
        for t in g.findall('Topology')[::-1]:  # the first one counts
            a = item(t, False)
            kind = t.attrib['TopologyType']
            r['elements'] = int(t.attrib['NumberOfElements'])
            r['cells'] = []
            if a is not None and kind == 'Mixed':
                a = a.ravel().tolist()
                while a and a[0] in XCODE:
                    k = XCODE[a.pop(0)]
                    r['cells'].append([k, a[:gen.NN[k]]])
                    del a[:gen.NN[k]]
            elif a is not None and kind in XTYPE:
                r['cells'] = [[XTYPE[kind], n] for n in np.reshape(a, (-1, gen.NN[XTYPE[kind]])).tolist()]
        for t in g.findall('Attribute'):
            a = item(t, True)
            if a is not None and t.attrib['Center'] == 'Cell' and (t.attrib['AttributeType'] == 'Scalar') == (a.ndim == 1):
                r['fields'].append([t.attrib['Name'], rows(a)])
        res['grids'].append(r)
    return res


def mesh_of(m):
    """what a mesh holds, cells by number"""
    cells = sorted(proj.p_conn(m._cell2node))
    ok = [c[0] for c in cells] == list(range(len(cells)))
    return {'points': points(m.nodescoord(ndarray=True)), 'cells': [[t, n] for _, t, n in cells] if ok else [], 'n': [int(m.ncell), int(m.nnode)]}


class Ground:
    def __init__(self, src, coords, rng):
        if src == 'plane':
            d = rng.choice([(1, 1), (2, 1), (2, 2), (3, 2)])
            gm = gen.plane_mesh(d[0], d[1], [rng.choice(['Q', 'T0', 'T1']) for _ in range(d[0] * d[1])]).shuffled(rng)
        else:
            gm = life.make_gm(src, rng)
        self.gm = gm
        xyz = np.array(gm.coords, dtype=float).reshape(gm.nnode, -1)
        self.xyz = np.hstack([xyz, np.zeros((gm.nnode, 3 - xyz.shape[1]))]) if xyz.shape[1] < 3 else xyz
        self.lat = self.xyz.astype(int).tolist()
        if coords == 'floats':
            self.xyz = self.xyz * rng.choice([0.1, 1e-9, 3e5]) + np.array([[rng.random() for _ in range(3)] for _ in range(gm.nnode)]) * 1e-12
        elif coords == 'single':
            self.xyz = (self.xyz * 0.1).astype(np.float32)


class World:
    def __init__(self, root, sc, rng):
        self.sc, self.rng, self.root = sc, rng, root
        other = sc['src'] if rng.random() < 0.4 else rng.choice(['hexa', 'small', 'mixed'])
        self.grounds = [Ground(sc['src'], sc['coords'], rng), Ground(other, sc['coords'], rng)]
        self.whole = sc['coords'] == 'lattice' and not {sc['src'], other} & {'pyra1', 'prism1'}  # planar sides
        odd = ['a & b', 'x<y>', 'q"t"', "it's", 'é']
        plain = ['Q', 'U', 'P_avg', 'rho u', 'zz']
        self.names = rng.sample(odd if sc['names'] == 'odd' else plain, 4)
        self.meshes = [self.mesh(g, sc['number'] if rng.random() < 0.8 else 'default') for g in self.grounds]
        self.objs, self.files, self.dumps, self.grids = {}, {}, [], []
        self.first = {}
        for k in range(3):
            p = f'f{k}.{"vtk" if sc["names"] == "odd" else "vtu"}'
            g = self.grid(self.grounds[0], sc['kinds'], sc['times'][k], shuffled=k > 0 and rng.random() < 0.4)
            if 0 < sc['drop'][k] <= len(sc['kinds']):
                g.cell_data.remove(self.names[sc['drop'][k] - 1])
            g.save(os.path.join(root, p))
            self.files[p] = True
            import pyvista as pv
            self.first[p] = grid(pv.read(os.path.join(root, p)))
        self.own = list(self.files)

    def mesh(self, w, mode):
        m, spec = proj.build_mesh(w.gm, self.rng, mode, w.xyz.copy())
        return m, {'points': points(w.xyz), 'cells': [[t, n] for _, t, n in spec], 'lat': w.lat}

    def grid(self, w, kinds, time, shuffled):
        import pyvista as pv

        rng = self.rng
        cells = list(w.gm.cells)
        if shuffled:
            cells = shuffle('random', cells, rng)
        g = pv.UnstructuredGrid(np.concatenate([np.array([len(n)] + list(n)) for _, n in cells]), np.array([VTK[t] for t, _ in cells], dtype=np.uint8), w.xyz.copy())
        for n, k in zip(self.names, kinds):
            g.cell_data[n] = values(k, len(cells), rng)
        if TIME[time] is not None:
            g.field_data['TimeValue'] = np.array([TIME[time]])
        return g

    def safe(self, op, ext):
        """the file asked for"""
        name = f'{op["name"]}{len(self.dumps) if op["new"] else ""}.{ext}'
        p = name if op['rel'] else os.path.join(self.root, name)
        return name, Path(p) if op['path'] == 'path' else p

    def held(self):
        return [mesh_of(m) for m, _ in self.meshes] + [grid(g) for g in self.grids]


def case(job):
    cid, sc, seed, wd = job
    rng = random.Random(seed)
    root = os.path.join(wd, cid)
    os.makedirs(os.path.join(root, 'sub'))
    w = World(root, sc, rng)
    here = os.getcwd()
    os.chdir(root)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            ev = life_of(w, sc, rng, root)
    finally:
        os.chdir(here)
    shutil.rmtree(root)
    return {'id': cid, 'meshes': [s for _, s in w.meshes], 'files': w.first, 'lat': w.grounds[0].lat, 'ev': ev}


def life_of(w, sc, rng, root):
    import cfdtools._cli as cli
    import cfdtools.data as data
    import cfdtools.vtk as vtk
    import pyvista as pv

    ev = []
    ops = [{**sc['ops'][0], 'op': rng.choice(['set', 'set', 'pv'])}] + sc['ops'] if rng.random() < 0.8 else sc['ops']
    rel = lambda p: os.path.relpath(os.path.abspath(str(p)), root)
    for op in ops:
        o = op['o'] if op['o'] in w.objs or op['op'] in ('set', 'pv', 'load', 'import', 'series', 'list', 'look') else next(iter(w.objs), None)
        kind = op['op']
        if o is None or kind in ('import', 'look') and not w.dumps or kind == 'volumes' and not w.whole:
            continue
        before = w.held()
        e = {'op': kind, 'o': o, 'exc': ''}
        if kind == 'set':
            e['mesh'] = 1 + op['pick'] % 2
            m = w.meshes[e['mesh'] - 1][0]
            if o in w.objs and rng.random() < 0.7:
                ok, r = outcome(lambda: w.objs[o].set_mesh(m))
            else:
                ok, r = outcome(lambda: vtk.vtkMesh(m))
                w.objs[o] = r if ok else None
            e['got'] = grid(w.objs[o].pyvista_grid) if ok else {}
        elif kind == 'pv':
            ground = w.grounds[rng.random() < 0.4]
            g = w.grid(ground, sc['kinds'], op['times'][0], rng.random() < 0.6)
            w.grids.append(g)
            before.append(grid(g))
            e['given'], e['lat'] = grid(g), ground.lat
            if o in w.objs and rng.random() < 0.7:
                ok, r = outcome(lambda: w.objs[o].set_pvmesh(g))
            else:
                ok, r = outcome(lambda: vtk.vtkMesh(pvmesh=g))
                w.objs[o] = r if ok else None
            e['got'] = grid(w.objs[o].pyvista_grid) if ok else {}
        elif kind == 'export':
            ok, r = outcome(w.objs[o].export_mesh)
            e['got'] = mesh_of(r) if ok else {}
            if ok and rng.random() < 0.5:
                e['got'] = mesh_of(w.objs[o].export_mesh())
        elif kind == 'save':
            ext = 'vtk' if sc['names'] == 'odd' else op['ext']
            e['name'], p = w.safe(op, ext)
            ok, r = outcome(lambda: w.objs[o].write_data(p))
            w.files[e['name']] = True
        elif kind == 'load':
            e['name'] = sorted(w.files)[op['pick'] % len(w.files)]
            if o not in w.objs:
                w.objs[o] = vtk.vtkMesh()
            ok, r = outcome(lambda: w.objs[o].read(e['name']))
            e['got'] = grid(w.objs[o].pyvista_grid) if ok else {}
        elif kind in ('dump', 'series', 'list'):
            e['name'], p = w.safe(op, 'h5')
            opt = dict(ZIP[op['zip']])
            if op['over'] or rng.random() < 0.3:
                opt['overwrite'] = op['over']
            e['over'] = op['over']
            if kind == 'dump':
                ok, r = outcome(lambda: w.objs[o].dumphdf(p, **opt))
            elif kind == 'series':
                e['files'] = [w.own[(op['pick'] + k) % 3] for k in range(op['nfile'])]
                names = [n for n in w.names[:len(sc['kinds'])] if all(n in (x for x, _ in w.first[q]['fields']) for q in e['files'])]
                pack = not op['over'] and rng.random() < 0.25  # the command
                f = [] if op['filter'] == 'none' or not names or pack else rng.sample(names, 1 if op['filter'] == 'one' else rng.randrange(1, 1 + len(names)))
                e['filter'], e['xdmf'], e['pack'] = f, op['xdmf'] and not pack, pack
                old = {q: q.stat().st_mtime_ns for q in Path('.').rglob('*.xmf')}

                def run():
                    if pack:
                        e['name'] = 'dumped.h5'
                        return cli.vtkpack([q if rng.random() < 0.7 else os.path.join(root, q) for q in e['files']])
                    vl = vtk.vtkList(list(e['files']))
                    vl.read(**({'filterdata': f} if f else {}))
                    return vl.dumphdf(p, **({'xdmf': True} if e['xdmf'] else {}), **opt)
                ok, r = outcome(run)
                if ok and e['xdmf']:
                    new = [q for q in Path('.').rglob('*.xmf') if old.get(q) != q.stat().st_mtime_ns]
                    e['xmf'] = xmf(os.path.abspath(new[0])) if len(new) == 1 else {'valid': False, 'refs': [], 'grids': []}
            else:
                e['mesh'], e['nodal'] = 1 + op['pick'] % 2, op['nodal']
                m = w.meshes[e['mesh'] - 1][0]
                gm = w.grounds[e['mesh'] - 1].gm
                n = gm.nnode if op['nodal'] else gm.ncell
                given = []
                for k in range(op['nfile']):
                    d = {nm: values(kd if kd != 'matrix' else 'tensor', n, rng) for nm, kd in zip(w.names, op['kinds'])}
                    given.append(({nm: a.reshape(-1, 3, 3) if kd == 'matrix' else a for (nm, a), kd in zip(d.items(), op['kinds'])}, TIME[op['times'][k]]))
                e['given'] = [{'fields': [[nm, rows(a)] for nm, a in d.items()], 'time': timed(t)} for d, t in given]

                def run():
                    dl = data.DataSetList(len(given), Xrep='nodal' if op['nodal'] else 'cellaverage', Trep=op['trep'])
                    dl.set_mesh(m)
                    for d, t in given:
                        dl.add_datalist(d, **({} if t is None and rng.random() < 0.5 else {'time': t}))
                    return dl.dumphdf(p, **opt)
                ok, r = outcome(run)
            if ok:
                e['name'] = rel(r)
                e['h5'] = hdf(e['name'])
                if e['name'] in w.dumps:
                    w.dumps.remove(e['name'])
                w.dumps.append(e['name'])
        elif kind == 'import':
            from cfdtools.hdf5 import h5File

            e['name'] = w.dumps[-1 - op['pick'] % len(w.dumps)]
            if o not in w.objs:
                w.objs[o] = vtk.vtkMesh()

            def run():
                h = h5File(e['name'])
                h.open()
                try:
                    w.objs[o].importhdfgroup(h['mesh'])
                finally:
                    h.close()
            ok, r = outcome(run)
            e['got'] = grid(w.objs[o].pyvista_grid) if ok else {}
        elif kind == 'volumes':
            ok, r = outcome(w.objs[o].volumes)
            if ok:
                v = 6 * np.asarray(r, dtype=float)
                e['got'] = [int(round(x)) if np.isfinite(x) and abs(x - round(x)) < 1e-6 else -1 for x in v.tolist()]
        else:
            ok, r = True, None
            e['name'] = w.dumps[op['pick'] % len(w.dumps)]
            e['h5'] = hdf(e['name'])
        e['kept'] = w.held() == before
        if not ok:
            e['exc'] = errtxt(r)
        ev.append(e)
        if not ok:
            break
    return ev


def run(ctx):
    q = ctx.quick
    ctx.mc('VtkDump')
    if not q:
        ctx.mc('VtkDump', 'VtkDumpBig')
    scen = ctx.gen('GenVtk', simulate=(600 if q else 6000, 3))
    wd = ctx.subdir('vtk')
    cases = [c for c in pmap(case, [(f'v{i}', s, ctx.rng.randrange(1 << 30), wd) for i, s in enumerate(scen)]) if c['ev']]
    ops = [e for c in cases for e in c['ev']]
    for op in ('set', 'pv', 'export', 'save', 'load', 'dump', 'import', 'volumes', 'series', 'list', 'look'):
        ctx.notes[op] = sum(e['op'] == op for e in ops)
    ctx.notes['series whose files have other fields'] = sum(e['op'] == 'series' and len({frozenset(n for n, _ in c['files'][f]['fields']) for f in e['files']}) > 1 for c in cases for e in c['ev'])
    ctx.notes['series packed with the command'] = sum(e.get('pack', False) for e in ops)
    ctx.notes['XMF files'] = sum('xmf' in e for e in ops)
    ctx.validate('VtkTrace', cases)
    big.judge(ctx, bigger.dump_case, [(f'big{i}', d, ctx.rng.randrange(1 << 30), wd) for i, d in enumerate(big.sizes(ctx))])
