"""Generators of conforming meshes (independent of the code under test).

A GM (generated mesh) is plain data: integer coordinates, cells (type, nodes),
2D or 3D.  Nothing here imports cfdtools.
"""
import itertools
import random

CORNERS = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
NN = {'node1': 1, 'bar2': 2, 'tri3': 3, 'quad4': 4, 'tetra4': 4, 'pyra5': 5, 'prism6': 6, 'hexa8': 8}
FT = {2: 'bar2', 3: 'tri3', 4: 'quad4'}
SIDES = {  # outward walks, CGNS, zero based (only used to build inputs; TLC has its own table)
    'tri3': [(0, 1), (1, 2), (2, 0)],
    'quad4': [(0, 1), (1, 2), (2, 3), (3, 0)],
    'tetra4': [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)],
    'pyra5': [(0, 3, 2, 1), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)],
    'prism6': [(0, 2, 1), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5)],
    'hexa8': [(0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)],
}


def _det(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def _hexa_sym():
    X = [tuple(2 * c - 1 for c in p) for p in CORNERS]
    res = []
    for perm in itertools.permutations(range(3)):
        for sg in itertools.product((-1, 1), repeat=3):
            m = [[sg[i] if perm[i] == j else 0 for j in range(3)] for i in range(3)]
            if _det(m) == 1:
                res.append([X.index(tuple(sum(m[i][j] * p[j] for j in range(3)) for i in range(3))) for p in X])
    return res


SYM = {
    'tri3': [[0, 1, 2], [1, 2, 0], [2, 0, 1]],
    'quad4': [[(i + k) % 4 for i in range(4)] for k in range(4)],
    'tetra4': [list(p) for p in itertools.permutations(range(4))
               if sum(1 for i in range(4) for j in range(i) if p[j] > p[i]) % 2 == 0],
    'pyra5': [[(i + k) % 4 for i in range(4)] + [4] for k in range(4)],
    'prism6': [[(i + k) % 3 for i in range(3)] + [3 + (i + k) % 3 for i in range(3)] for k in range(3)]
    + [[3 + (k - i) % 3 for i in range(3)] + [(k - i) % 3 for i in range(3)] for k in range(3)],
    'hexa8': _hexa_sym(),
    'bar2': [[0, 1]], 'node1': [[0]],
}


class GM:
    def __init__(self, coords, cells, dim, origin=''):
        self.coords, self.cells, self.dim, self.origin = coords, cells, dim, origin

    @property
    def nnode(self):
        return len(self.coords)

    @property
    def ncell(self):
        return len(self.cells)

    def sides(self):
        """frozenset of nodes -> list of (cell position, walk)"""
        d = {}
        for ic, (et, nodes) in enumerate(self.cells):
            for w in SIDES[et]:
                walk = tuple(nodes[i] for i in w)
                d.setdefault(frozenset(walk), []).append((ic, walk))
        return d

    def boundary(self):
        """list of outward walks of boundary faces"""
        return [v[0][1] for v in self.sides().values() if len(v) == 1]

    def shuffled(self, rng, nodes=True, cells=True, local=True):
        perm = list(range(self.nnode))
        if nodes:
            rng.shuffle(perm)
        coords = [None] * self.nnode
        for i, p in enumerate(perm):
            coords[p] = self.coords[i]
        new = []
        for et, nd in self.cells:
            nd = [perm[n] for n in nd]
            if local:
                s = rng.choice(SYM[et])
                nd = [nd[i] for i in s]
            new.append((et, nd))
        if cells:
            rng.shuffle(new)
        return GM(coords, new, self.dim, self.origin)


def lattice_mesh(dims, kinds, rng=None, tri_free=0.5):
    """mesh of a lattice of cubes; kinds[i] as in GenMesh.tla (x fastest)"""
    rng = rng or random.Random(0)
    nx, ny, nz = dims
    kd = {}
    it = iter(kinds)
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                kd[i, j, k] = next(it)
    nodes = {}
    coords = []

    def node(p):
        if p not in nodes:
            nodes[p] = len(coords)
            coords.append(p)
        return nodes[p]

    def req(kind, ax):
        if kind == 'C':
            return None
        if kind == 'H':
            return 'q'
        a = 'xyz'.index(kind[1])
        return 't' + kind[2] if a == ax else 'q'

    cut = {}
    for (i, j, k), kind in kd.items():
        for ax in range(3):
            for s in (0, 1):
                p = [i, j, k]
                p[ax] += s
                key = (tuple(p), ax)
                r = req(kind, ax)
                if r is not None:
                    assert cut.get(key) in (None, r)
                    cut[key] = r
                else:
                    cut.setdefault(key, None)
    for key in cut:
        if cut[key] is None:
            cut[key] = rng.choice(['t0', 't1']) if rng.random() < tri_free else 'q'
    cells = []
    for (i, j, k), kind in kd.items():
        def at(c):
            return node((2 * (i + c[0]), 2 * (j + c[1]), 2 * (k + c[2])))

        if kind == 'H':
            cells.append(('hexa8', [at(c) for c in CORNERS]))
        elif kind == 'C':
            ctr = node((2 * i + 1, 2 * j + 1, 2 * k + 1))
            for ax in range(3):
                u, v = (ax + 1) % 3, (ax + 2) % 3
                for s in (0, 1):
                    def cor(a, b):
                        c = [0, 0, 0]
                        c[ax], c[u], c[v] = s, a, b
                        return at(c)

                    quad = [cor(0, 0), cor(1, 0), cor(1, 1), cor(0, 1)]
                    p = [i, j, k]
                    p[ax] += s
                    ct = cut[tuple(p), ax]
                    if ct == 'q':
                        parts = [quad]
                    elif ct == 't0':
                        parts = [[quad[0], quad[1], quad[2]], [quad[0], quad[2], quad[3]]]
                    else:
                        parts = [[quad[0], quad[1], quad[3]], [quad[1], quad[2], quad[3]]]
                    for q in parts:
                        if s == 1:
                            q = q[::-1]
                        cells.append(('pyra5' if len(q) == 4 else 'tetra4', q + [ctr]))
        else:
            ax = 'xyz'.index(kind[1])
            u, v = (ax + 1) % 3, (ax + 2) % 3

            def cor(s, a, b):
                c = [0, 0, 0]
                c[ax], c[u], c[v] = s, a, b
                return at(c)

            tris = ([(0, 0), (1, 0), (1, 1)], [(0, 0), (1, 1), (0, 1)]) if kind[2] == '0' else \
                ([(0, 0), (1, 0), (0, 1)], [(1, 0), (1, 1), (0, 1)])
            for t in tris:
                cells.append(('prism6', [cor(0, *p) for p in t] + [cor(1, *p) for p in t]))
    return GM(coords, cells, 3, f'{dims}{"".join(kinds)}')


def plane_mesh(nx, ny, kinds, z=0):
    """2D mesh: kinds[i] in Q (quad), T0/T1 (two triangles)"""
    coords, nodes, cells = [], {}, []

    def node(i, j):
        if (i, j) not in nodes:
            nodes[i, j] = len(coords)
            coords.append((2 * i, 2 * j, z))
        return nodes[i, j]

    it = iter(kinds)
    for j in range(ny):
        for i in range(nx):
            k = next(it)
            a, b, c, d = node(i, j), node(i + 1, j), node(i + 1, j + 1), node(i, j + 1)
            if k == 'Q':
                cells.append(('quad4', [a, b, c, d]))
            elif k == 'T0':
                cells += [('tri3', [a, b, c]), ('tri3', [a, c, d])]
            else:
                cells += [('tri3', [a, b, d]), ('tri3', [b, c, d])]
    return GM(coords, cells, 2, f'2D{nx}x{ny}{"".join(kinds)}')


def random_kinds(dims, rng, kinds=('H', 'C', 'Px0', 'Px1', 'Py0', 'Py1', 'Pz0', 'Pz1')):
    """random fitting choice of kinds (C always fits)"""
    nx, ny, nz = dims

    def cut(k, ax):
        if k == 'C':
            return None
        if k == 'H':
            return 'q'
        return 't' + k[2] if 'xyz'.index(k[1]) == ax else 'q'

    res = {}
    out = []
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                ok = []
                for kd in kinds:
                    good = True
                    for ax, p in ((0, (i - 1, j, k)), (1, (i, j - 1, k)), (2, (i, j, k - 1))):
                        if p in res:
                            a, b = cut(res[p], ax), cut(kd, ax)
                            good &= a is None or b is None or a == b
                    if good:
                        ok.append(kd)
                kd = rng.choice(ok) if ok else 'C'
                res[i, j, k] = kd
                out.append(kd)
    return out


def patches(gm, rng, npatch, cover=1.0):
    """random groups of boundary faces: list of lists of walks, disjoint"""
    faces = gm.boundary()
    rng.shuffle(faces)
    faces = faces[: max(1, int(round(cover * len(faces))))]
    npatch = min(npatch, len(faces))
    cutpts = sorted(rng.sample(range(1, len(faces)), npatch - 1)) if npatch > 1 else []
    return [faces[a:b] for a, b in zip([0] + cutpts, cutpts + [len(faces)])]


def plane_patches(gm):
    """groups of boundary faces by side of the bounding box (3D: 6, 2D: 4)"""
    res = {}
    lo = [min(c[a] for c in gm.coords) for a in range(3)]
    hi = [max(c[a] for c in gm.coords) for a in range(3)]
    for w in gm.boundary():
        for a in range(gm.dim):
            for nm, val in (('min', lo[a]), ('max', hi[a])):
                if all(gm.coords[n][a] == val for n in w):
                    res.setdefault('xyz'[a] + nm, []).append(w)
    return res
