"""CGNS/HDF5 files from plain data, independent of the code under test."""
import h5py
import numpy as np

CODE = {'node1': 2, 'bar2': 3, 'tri3': 5, 'quad4': 7, 'tetra4': 10, 'pyra5': 12, 'prism6': 14, 'hexa8': 17}


def node(parent, name, label, data=None):
    g = parent.create_group(name)
    g.attrs['name'] = np.bytes_(name)
    g.attrs['label'] = np.bytes_(label)
    if data is None:
        g.attrs['type'] = np.bytes_('MT')
        return g
    if isinstance(data, str):
        g.attrs['type'] = np.bytes_('C1')
        data = np.frombuffer(data.encode(), dtype=np.int8)
    else:
        data = np.asarray(data)
        g.attrs['type'] = np.bytes_({'int32': 'I4', 'int64': 'I8', 'float64': 'R8', 'float32': 'R4'}[str(data.dtype)])
    g.create_dataset(' data', data=data)
    return g


def write(path, bases):
    """bases: list of {name, cell_dim, zones: [{name, coords, ncell, sections: [{name, type, first, conn}], bcs: [...]}]}
    bcs: {name, kind, family, loc, how: list|range|elist|erange, index (from 1)}; group: BC_t or GridConnectivity_t"""
    with h5py.File(path, 'w') as f:
        f.attrs['name'] = np.bytes_('HDF5 MotherNode')
        f.attrs['label'] = np.bytes_('Root Node of HDF5 File')
        f.attrs['type'] = np.bytes_('MT')
        node(f, 'CGNSLibraryVersion', 'CGNSLibraryVersion_t', np.array([3.4], dtype=np.float32))
        for b in bases:
            gb = node(f, b['name'], 'CGNSBase_t', np.array([b['cell_dim'], 3], dtype=np.int32))
            for z in b['zones']:
                it = z.get('int', np.int32)
                gz = node(gb, z['name'], 'Zone_t', np.array([[len(z['coords'])], [z['ncell']], [0]], dtype=it))
                node(gz, 'ZoneType', 'ZoneType_t', 'Unstructured')
                gc = node(gz, 'GridCoordinates', 'GridCoordinates_t')
                for k, n in enumerate('XYZ'):
                    node(gc, 'Coordinate' + n, 'DataArray_t', np.array([c[k] for c in z['coords']], dtype=np.float64))
                for s in z['sections']:
                    gs = node(gz, s['name'], 'Elements_t', np.array([CODE[s['type']], 0], dtype=np.int32))
                    node(gs, 'ElementRange', 'IndexRange_t', np.array([s['first'], s['first'] + len(s['conn']) - 1], dtype=it))
                    node(gs, 'ElementConnectivity', 'DataArray_t', np.array([n for e in s['conn'] for n in e], dtype=it))
                for grp, label, sub in (('ZoneBC', 'ZoneBC_t', 'BC_t'), ('ZoneGridConnectivity', 'ZoneGridConnectivity_t', 'GridConnectivity_t')):
                    lst = [c for c in z['bcs'] if c.get('group', 'BC_t') == sub]
                    if not lst:
                        continue
                    gg = node(gz, grp, label)
                    for c in lst:
                        gb_ = node(gg, c['name'], sub, c['kind'])
                        if c.get('family'):
                            node(gb_, 'FamilyName', 'FamilyName_t', c['family'])
                        if c.get('loc'):
                            node(gb_, 'GridLocation', 'GridLocation_t', c['loc'])
                        if c['how'] == 'list':
                            node(gb_, 'PointList', 'IndexArray_t', np.array(c['index'], dtype=it).reshape(-1, 1))
                        elif c['how'] == 'range':
                            node(gb_, 'PointRange', 'IndexRange_t', np.array(c['index'], dtype=it).reshape(2, 1))
                        elif c['how'] == 'elist':
                            node(gb_, 'ElementList', 'IndexArray_t', np.array(c['index'], dtype=it).reshape(-1, 1))
                        else:
                            node(gb_, 'ElementRange', 'IndexRange_t', np.array(c['index'], dtype=it).reshape(2, 1))
