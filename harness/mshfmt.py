"""ASCII GMSH files (versions 2.2 and 4.1) from plain data, independent of the code under test."""
CODE = {'bar2': 1, 'tri3': 2, 'quad4': 3, 'tetra4': 4, 'hexa8': 5, 'prism6': 6, 'pyra5': 7, 'node1': 15}
DIM = {'node1': 0, 'bar2': 1, 'tri3': 2, 'quad4': 2, 'tetra4': 3, 'pyra5': 3, 'prism6': 3, 'hexa8': 3}


def num(x):
    return repr(float(x))


def head(version, names):
    out = ['$MeshFormat', f'{version} 0 8', '$EndMeshFormat']
    if names:
        out += ['$PhysicalNames', str(len(names))] + [f'{d} {t} "{n}"' for (d, t), n in names.items()] + ['$EndPhysicalNames']
    return out


def v22(coords, elems, names, tags=None, order=None, ntags=2, extra=()):
    """coords: list of (x, y, z); elems: list of (type, nodes from 0, physical tag(s), entity); names: {(dim, tag): name}
    tags: tag of each node, order: order of the nodes in the file; a line is repeated for each physical tag"""
    tags = tags or [i + 1 for i in range(len(coords))]
    out = head('2.2', names)
    out += ['$Nodes', str(len(coords))] + [f'{tags[i]} ' + ' '.join(map(num, coords[i])) for i in order or range(len(coords))] + ['$EndNodes']
    lines = []
    for et, nd, ph, ent in elems:
        for p in (ph or [0]) if isinstance(ph, (list, tuple)) else [ph]:
            t = [p, ent, 1, 3][:ntags]
            lines.append(f'{len(lines) + 1} {CODE[et]} {len(t)} ' + ' '.join(str(n) for n in t + [tags[n] for n in nd]))
    out += ['$Elements', str(len(lines))] + lines + ['$EndElements']
    return '\n'.join(out + list(extra) + [''])


def v41(coords, names, tags, nblocks, eblocks, phys, extra=(), entities=True):
    """nblocks: list of (dim, entity, parametric, nodes); eblocks: list of (type, entity, list of nodes);
    phys: {(dim, entity): groups}"""
    out = head('4.1', names)
    if entities:
        by = [[e for e in phys if e[0] == d] for d in range(4)]
        out += ['$Entities', ' '.join(str(len(b)) for b in by)]
        for d, b in enumerate(by):
            for e in b:
                box = '0 0 0' if d == 0 else '0 0 0 1 1 1'
                bnd = '' if d == 0 else ' 2 1 -2' if d == 1 else ' 0'
                out.append(f'{e[1]} {box} {len(phys[e])}' + ''.join(f' {g}' for g in phys[e]) + bnd)
        out.append('$EndEntities')
    out += ['$Nodes', f'{len(nblocks)} {len(coords)} {min(tags)} {max(tags)}']
    for d, e, par, nodes in nblocks:
        out.append(f'{d} {e} {int(par)} {len(nodes)}')
        out += [str(tags[i]) for i in nodes]
        out += [' '.join(map(num, coords[i])) + (' 0.25' * d if par else '') for i in nodes]
    nel = sum(len(b[2]) for b in eblocks)
    out += ['$EndNodes', '$Elements', f'{len(eblocks)} {nel} 1 {nel}']
    k = 0
    for et, ent, lst in eblocks:
        out.append(f'{DIM[et]} {ent} {CODE[et]} {len(lst)}')
        for nd in lst:
            k += 1
            out.append(f'{k} ' + ' '.join(str(tags[n]) for n in nd))
    return '\n'.join(out + ['$EndElements'] + list(extra) + [''])


def simple(gm, marks, fluid='fluid'):
    """version 2.2 text of a mesh: marks = list of (name, list of faces as node tuples)"""
    bt = {2: 'bar2', 3: 'tri3', 4: 'quad4'}
    dim = gm.dim
    names = {(dim - 1, i + 1): n for i, (n, _) in enumerate(marks)}
    names[(dim, len(marks) + 1)] = fluid
    elems = [(bt[len(f)], f, i + 1, i + 1) for i, (_, fs) in enumerate(marks) for f in fs]
    elems += [(et, nd, len(marks) + 1, len(marks) + 1) for et, nd in gm.cells]
    xyz = [tuple(c) + (0.0,) * (3 - len(c)) for c in gm.coords]
    return v22(xyz, elems, names)
