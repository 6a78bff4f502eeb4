"""C22: the cube generator gives the exact structured box."""
import contextlib
import io
import os
import random
import shutil

import numpy as np

import ic3fmt
import life
import proj
from common import errtxt, outcome, pmap

ASSUMPTIONS = ['coordinates i/n are accepted within 1e-14 (rounding of the division)', 'numberings of nodes and of cells are free; corners of a cell are in the order of CGNS']


def lattice(xyz, n):
    res = []
    for p in np.asarray(xyz, dtype=float):
        q = [round(float(c) * k) if abs(c) < 1e6 else -1 for c, k in zip(p, n)]
        res.append([i if abs(float(c) - i / k) <= 1e-14 else -1 for i, c, k in zip(q, p, n)])
    return res


def state(mesh, n):
    s = proj.p_mesh(mesh)
    s['pts'] = lattice(mesh.nodescoord(ndarray=True), n)
    return s


def event(op, f, *a):
    e = {'op': op, 'exc': ''}
    ok, r = outcome(f, *a)
    if not ok:
        e['exc'] = errtxt(r)
    else:
        e.update(r)
    return e


def case(job):
    cid, sc, seed, wd = job
    import cfdtools._cli as cli
    import cfdtools.meshbase.simple as simple

    rng = random.Random(seed)
    n = list(sc['size'])
    if sc['nz'] == 'default' and sc['by'] == 'api':
        n[2] = 1
    wd = os.path.join(wd, cid)
    os.mkdir(wd)
    hold = {}

    def make():
        if sc['twice']:  # another generator in between
            other = simple.Cube(*[1 + rng.randrange(3) for _ in range(3)])
        hold['cube'] = simple.Cube(n[0], n[1]) if sc['nz'] == 'default' and sc['by'] == 'api' else rng.choice(
            [lambda: simple.Cube(*n), lambda: simple.Cube(nx=n[0], nz=n[2], ny=n[1])])()
        if sc['twice']:
            other.export_mesh().make_face_connectivity()
        hold['mesh'] = hold['cube'].export_mesh()
        return {'post': state(hold['mesh'], n)}

    ev = [event('cube', make)]
    res = {'id': cid, 'n': n, 'ev': ev}

    def step(op, f, *a):
        if not ev[-1]['exc']:
            ev.append(event(op, f, *a))

    def derive():
        hold['mesh'].make_face_connectivity()
        return {'post': state(hold['mesh'], n)}

    def convert():
        hold['mesh'].bocomarks_set_node_to_face()
        return {'post': state(hold['mesh'], n)}

    def prepare():
        w = life.writer_of(rng.choice([2, 3]))(hold['mesh'])
        hold['w'] = w
        return {'post': state(hold['mesh'], n)}

    def sides():
        s = proj.p_mesh(hold['mesh'])
        T = s['bnd']
        face = {f[0]: f[2] for f in T['f']}
        return {'bnd': list(face.values()), 'names': [m['name'] for m in s['marks']], 'sets': [[face[i] for i in m['index']] for m in s['marks']]}

    def again():
        return {'post': state(hold['cube'].export_mesh(), n)}

    def command(fmt):
        name = sc['name'] + {'ic3': '.ic3', 'vtu': '.vtu'}[fmt]
        f = os.path.join(wd, name)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        args = [[f'--n{a}', str(k)] if rng.random() < 0.7 else [f'--n{a}={k}'] for a, k in zip('xyz', n)]
        args = [a for a, k in zip(args, n) if k != 10 or rng.random() < 0.4]  # 10 by default
        if sc['byname']:
            args.append(['--fmt', fmt.upper().replace('VTU', 'VTK')])
        args.append([f])
        random.Random(sc['order']).shuffle(args)
        if fmt == 'vtu' and sc['byname']:  # formats that can only be written are chosen by extension
            args = [a for a in args if a[0] != '--fmt']
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            cli.cfdwritecube([x for a in args for x in a])
        new = [os.path.relpath(os.path.join(d, x), wd) for d, _, fs in os.walk(wd) for x in fs]
        r = {'only': new == [name]}
        if fmt == 'ic3':
            with open(f, 'rb') as fid:
                r['file'] = ic3fmt.parse(fid.read())
        else:
            import pyvista as pv

            g = pv.read(f)
            r['post'] = {'nnode': int(g.n_points), 'ncell': int(g.n_cells), 'pts': lattice(g.points, n),
                         'cells': [[i, 'hexa8' if int(g.celltypes[i]) == 12 else 'other', [int(v) for v in g.get_cell(i).point_ids]] for i in range(g.n_cells)]}
        return r

    if sc['by'] == 'large':
        pass
    elif sc['by'] == 'api':
        if sc['prepare'] == 'derive':
            step('derive', derive)
            step('convert', convert)
        else:
            step('prepare', prepare)
        step('sides', sides)
        step('again', again)
    elif sc['fmt'] == 'ic3':
        step('prepare', prepare)
        step('file', command, 'ic3')
    else:
        step('grid', command, 'vtu')
    shutil.rmtree(wd)
    return res


def run(ctx):
    ctx.mc('CubeAlg', 'CubeAlg' if ctx.quick else 'CubeBig')
    scen = ctx.gen('GenCube', simulate=(350 if ctx.quick else 4000, 3))
    sizes = [[a, b, c] for a in (1, 2, 3) for b in (1, 2, 3) for c in (1, 2, 3)]
    base = dict(scen[0], twice=False)
    for k, s in enumerate(sizes):  # all small boxes, each way
        scen += [dict(base, size=s, by='api', nz='given'), dict(base, size=s, by='command', fmt=['ic3', 'vtu'][k % 2] if ctx.quick else 'ic3')]
        if not ctx.quick:
            scen.append(dict(base, size=s, by='command', fmt='vtu'))
    big = random.Random(ctx.seed).sample([[1, 1, 8300], [1, 8300, 1], [8300, 1, 1], [1, 110, 150]], 1 if ctx.quick else 4)
    scen += [dict(base, size=s, by='large', nz='given', twice=False) for s in big]
    wd = ctx.subdir('cubes')
    cases = pmap(case, [(f'b{i}', s, ctx.rng.randrange(1 << 30), wd) for i, s in enumerate(scen)])
    ctx.notes['sizes'] = len({tuple(c['n']) for c in cases})
    ctx.notes['files'] = sum(e['op'] in ('file', 'grid') for c in cases for e in c['ev'])
    ctx.validate('CubeTrace', cases)
