"""C01: derived faces are exactly the cell sides (FaceAlg, FaceRel, FaceTrace, GenMesh)."""
import random

import numpy as np

import big
import gen
import mshfmt
import proj
from common import errtxt, outcome, pmap

ASSUMPTIONS = ['cells are numbered 0..n-1 and list their nodes in CGNS order', 'meshes are conforming']


# places of the 27 nodes in a cube of side 2 (CGNS SIDS conv.html, GMSH node ordering)
C27 = [(0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0), (0, 0, 2), (2, 0, 2), (2, 2, 2), (0, 2, 2)]
PLACES = {'hexa27': C27 + [(1, 0, 0), (2, 1, 0), (1, 2, 0), (0, 1, 0), (0, 0, 1), (2, 0, 1), (2, 2, 1), (0, 2, 1), (1, 0, 2), (2, 1, 2), (1, 2, 2), (0, 1, 2),
                           (1, 1, 0), (1, 0, 1), (2, 1, 1), (1, 2, 1), (0, 1, 1), (1, 1, 2), (1, 1, 1)],
          'hexa27g': C27 + [(1, 0, 0), (0, 1, 0), (0, 0, 1), (2, 1, 0), (2, 0, 1), (1, 2, 0), (2, 2, 1), (0, 2, 1), (1, 0, 2), (0, 1, 2), (2, 1, 2), (1, 2, 2),
                            (1, 1, 0), (1, 0, 1), (0, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (1, 1, 1)]}


def second_order(job):
    """second-order hexahedra, in one of the two orders of nodes"""
    import cfdtools.meshbase._connectivity as conn
    import cfdtools.meshbase._elements as elem
    import cfdtools.meshbase._mesh as _mesh

    cid, dims, et, seed = job
    rng = random.Random(seed)
    nums = {}
    cells = []
    for o in [(i, j, k) for i in range(dims[0]) for j in range(dims[1]) for k in range(dims[2])]:
        # any rotation of the cube: a cyclic permutation of the axes, and two reversals
        s, flip = rng.randrange(3), rng.choice([(0, 0, 0), (1, 1, 0), (0, 1, 1), (1, 0, 1)])
        nd = []
        for p in PLACES[et]:
            p = [p[(m + s) % 3] for m in range(3)]
            p = tuple(2 * o[m] + (2 - p[m] if flip[m] else p[m]) for m in range(3))
            nd.append(nums.setdefault(p, len(nums)))
        cells.append(nd)
    perm = list(range(len(nums)))
    rng.shuffle(perm)
    rng.shuffle(cells)
    cells = [[perm[n] for n in c] for c in cells]
    num = list(range(len(cells)))
    if rng.random() < 0.5:
        rng.shuffle(num)
    ev = {'op': 'derive', 'exc': '', 'dim': 3}
    xyz = np.zeros((len(nums), 3))
    for p, n in nums.items():
        xyz[perm[n]] = p
    mesh = _mesh.Mesh(ncell=len(cells), nnode=len(nums))
    mesh.set_nodescoord_nd(xyz)
    try:
        c2n = conn.elem_connectivity() if et == 'hexa27' else conn.elem_connectivity(elem2faces=elem.gmsh_elem2faces)
    except (AttributeError, TypeError):  # no way to have this order of nodes (the GMSH reader refuses these cells)
        return {'id': cid, 'ev': []}
    c2n.add_elems('hexa27', np.array(cells), conn.indexlist(ilist=num))
    mesh.set_cell2node(c2n)
    ev['cells'] = sorted([n, et, c] for n, c in zip(num, cells))
    return project_faces(cid, ev, mesh)


def derive_case(job):
    """one recorded face derivation of the real code"""
    cid, gm, seed, mode, how = job
    rng = random.Random(seed)
    gm = gm.shuffled(rng, nodes=how != 'plain', cells=how != 'plain', local=how == 'local')
    ev = {'op': 'derive', 'exc': '', 'dim': gm.dim}
    mesh, spec = proj.build_mesh(gm, rng, mode)
    ev['cells'] = spec
    return project_faces(cid, ev, mesh)


def gmsh_case(job):
    """mesh read in a GMSH file: sides are those of the GMSH order of nodes"""
    from cfdtools.gmsh import reader

    cid, gm, seed, wd = job
    rng = random.Random(seed)
    gm = gm.shuffled(rng)
    if rng.random() < 0.5:  # types in any order
        gm.cells.sort(key=lambda c: c[0])
    path = f'{wd}/{cid}.msh'
    edge = sorted(gm.boundary())
    with open(path, 'w') as f:
        f.write(mshfmt.simple(gm, [('wall', [tuple(s) for s in edge])]))
    r = reader(path)
    r.read_data()
    mesh = r.export_mesh()
    return project_faces(cid, {'op': 'derive', 'exc': '', 'dim': gm.dim, 'cells': sorted(proj.p_conn(mesh._cell2node))}, mesh)


def project_faces(cid, ev, mesh):
    ok, r = outcome(mesh.make_face_connectivity)
    if not ok:
        ev['exc'] = errtxt(r)
        return {'id': cid, 'ev': [ev]}

    def project():
        e = {}
        e['ifaces'], e['if2c'] = proj.p_faceset(mesh._faces['internal'])
        e['bfaces'], e['bf2c'] = proj.p_faceset(mesh._faces['boundary'])
        mf, mf2c = mesh.export_mixedfaces()
        e['mfaces'], e['mf2c'] = proj.p_conn(mf), proj.p_f2c(mf2c)
        return e

    ok, r = outcome(project)
    if ok:
        ev.update(r)
    else:
        ev['exc'] = 'result: ' + errtxt(r)
    return {'id': cid, 'ev': [ev]}


def run(ctx):
    ctx.mc('FaceAlg')
    if not ctx.quick:
        ctx.mc('FaceAlg', 'FaceAlgBig', timeout=1500)
    scen = ctx.gen('GenMesh', 'GenMeshSmall')
    large = ctx.gen('GenMesh', 'GenMeshBig', simulate=(120 if ctx.quick else 1500, 14))
    rng = ctx.rng
    jobs = []
    modes = ['default', 'split', 'explicit']
    hows = ['plain', 'nodes', 'local', 'local']
    for i, s in enumerate(scen):
        gm = gen.lattice_mesh(s['dims'], s['kind'], rng)
        jobs.append((f's{i}-{gm.origin}', gm, rng.randrange(1 << 30), modes[i % 3], hows[i % 4]))
    for i, s in enumerate(large[: 90 if ctx.quick else 1500]):
        gm = gen.lattice_mesh(s['dims'], s['kind'], rng)
        jobs.append((f'b{i}-{gm.origin}', gm, rng.randrange(1 << 30), modes[rng.randrange(3)], 'local'))
    # pure meshes, one layer meshes, single cells of every type
    for et in ('tetra4', 'pyra5', 'prism6', 'hexa8'):
        n = gen.NN[et]
        gm = gen.GM([(i, i * i, i ** 3) for i in range(n)], [(et, list(range(n)))], 3, et)
        jobs.append((f'single-{et}', gm, 1, 'default', 'local'))
    for d in ((1, 1, 3), (3, 3, 1)):
        for k in ('H', 'Pz0', 'Pz1', 'C', 'Px1'):
            kinds = [k] * (d[0] * d[1] * d[2])
            for tf in ((0.0, 1.0) if k == 'C' else (0.5,)):
                gm = gen.lattice_mesh(d, kinds, rng, tri_free=tf)
                jobs.append((f'pure-{k}-{d}-{tf}'.replace(' ', ''), gm, rng.randrange(1 << 30), 'split', 'local'))
    # 2D
    for i in range(40 if ctx.quick else 400):
        nx, ny = rng.choice([(1, 1), (2, 1), (2, 2), (3, 2)])
        kinds = [rng.choice(['Q', 'T0', 'T1'] if i % 3 else ['Q']) for _ in range(nx * ny)]
        gm = gen.plane_mesh(nx, ny, kinds)
        jobs.append((f'p{i}-{gm.origin}', gm, rng.randrange(1 << 30), modes[i % 3], 'local'))
    if not ctx.quick:
        for i in range(30):
            d = rng.choice([(3, 3, 3), (4, 3, 2), (5, 2, 2)])
            gm = gen.lattice_mesh(d, gen.random_kinds(d, rng), rng)
            jobs.append((f'r{i}-{d}', gm, rng.randrange(1 << 30), modes[i % 3], 'local'))
    high = [(f'o{i}-{et}-{d}', d, et, rng.randrange(1 << 30)) for i in range(4 if ctx.quick else 30) for et in ('hexa27', 'hexa27g')
            for d in ((1, 1, 1), (2, 1, 1), (1, 3, 1), (2, 2, 1), (2, 2, 2))]
    cases = pmap(derive_case, jobs) + [c for c in pmap(second_order, high) if c['ev']]
    wd = ctx.subdir('gmsh')
    cases += pmap(gmsh_case, [(f'g{i}', j[1], j[2] ^ 1, wd) for i, j in enumerate(rng.sample(jobs, 60 if ctx.quick else 600))])
    ctx.validate('FaceTrace', cases)
    big.judge(ctx, big.faces_case, [(f'big{i}', d, rng.randrange(1 << 30), '') for i, d in enumerate(big.sizes(ctx))])
