"""Independent reader and writer of IC3 version 4 (HDF5) files: plain data (no code of cfdtools)."""
import h5py
import numpy as np

from common import fbits

CONS = ['rho', 'rhou', 'rhoe']
STATS = ('_AVG', '_RMS', '_REY')
KIND = {'boundary': 1, 'perio_cart': 2, 'perio_cylx': 3, 'perio_cyly': 4, 'perio_cylz': 5, 'internal': 6}


def text(v):
    return v.decode('utf-8') if isinstance(v, bytes) else str(v)


def ints(d):
    a = np.asarray(d)
    assert a.dtype.kind in 'iu' and a.ndim == 1
    return [int(x) for x in a]


def floats(d):
    a = np.asarray(d)
    assert a.dtype.kind == 'f'
    return [fbits(x) for x in a.ravel()]


EMPTY = {'err': 'no file', 'no': 0, 'fa': 0, 'cv': 0, 'fmt': 0, 'mtype': '', 'xyz': [], 'cvofa': [], 'ni': [], 'nv': [], 'off': [0],
         'hascell': False, 'cell': [], 'labels': [], 'offsets': [], 'kinds': [], 'per': [],
         'sol': {'has': False, 'stepn': '0', 'time': fbits(0.0), 'cons': [], 'stats': [], 'wgt': []}}


def parse(mesh, sol=None):
    """the record given to TLC; err tells what is not as the format says"""
    try:
        return _parse(mesh, sol)
    except Exception as e:  # noqa: a wrong file is data
        return {**EMPTY, 'err': f'{type(e).__name__}: {e}'[:150]}


def _parse(mesh, sol):
    f = dict(EMPTY, err='')
    with h5py.File(mesh, 'r') as h:
        f['no'], f['fa'], f['cv'] = (int(h.attrs[k]) for k in ('no_count', 'fa_count', 'cv_count'))
        f['fmt'], f['mtype'] = int(h.attrs['ic3_format_version']), text(h.attrs['meshtype'])
        x = h['coordinates']
        assert x.dtype == 'f8' and x.ndim == 1
        f['xyz'] = floats(x[()])
        g = h['Connectivities/Face']
        f['cvofa'], f['ni'], f['nv'] = (ints(g[k][()]) for k in ('cvofa', 'noofa_i', 'noofa_v'))
        off = [0]
        for n in f['ni']:
            off.append(off[-1] + n)
        f['off'] = off
        if 'Cell' in h['Connectivities']:
            f['hascell'] = True
            f['cell'] = sorted([text(k), [int(n) for n in row]] for k, d in h['Connectivities/Cell'].items() for row in d[()].tolist())
        b = h['Boundaries']
        f['labels'] = [text(v) for v in b['labels'][()]]
        f['offsets'], f['kinds'] = ints(b['offsets'][()]), ints(b['kinds'][()])
        per = []

        def visit(name, o):
            if name.endswith('/periodic_transform'):
                per.append([name[:-len('/periodic_transform')], floats(o[()])])

        b.visititems(visit)
        f['per'] = sorted(per)
    s = dict(EMPTY['sol'])
    if sol is not None:
        with h5py.File(sol, 'r') as h:
            s['has'] = True
            s['stepn'], s['time'] = str(int(h.attrs['step'])), fbits(h.attrs['time'])
            rows = lambda g: sorted([k, k.upper(), d.size, floats(d[()])] for k, d in g.items() if isinstance(d, h5py.Dataset))
            s['cons'] = rows(h)
            if 'VolumeStats' in h:
                s['stats'] = rows(h['VolumeStats'])
                s['wgt'] = sorted([k[:-4].lower(), fbits(v)] for k, v in h['VolumeStats'].attrs.items() if k.endswith('_wgt'))
    f['sol'] = s
    return f


def names(spec_fields):
    """what a writer makes of the names of cell fields (case is not for the specification to compute)"""
    return [[n, n.lower(), n.upper(), any(s in n for s in STATS)] for n in sorted({d[0] for d in spec_fields})]


def fabricate(mesh, sol, m, rng):
    """files from plain data (see ic3fmt.fabricate), with things a reader has to ignore; sol may be None"""
    with h5py.File(mesh, 'w') as h:
        h.attrs.update({'ic3_format_version': 4, 'meshtype': 'unstructured', 'no_count': m['nnode'], 'fa_count': len(m['faces']), 'cv_count': m['ncell'],
                        'author': 'someone'})
        h.create_dataset('coordinates', data=np.array(m['xyz'], dtype=float).ravel())
        if rng.random() < 0.5:
            h.create_dataset('remark', data=[1, 2, 3])
        g = h.create_group('Connectivities/Face')
        it = rng.choice(['i4', 'i8'])
        g.create_dataset('cvofa', data=[c for f in m['faces'] for c in f[1]], dtype=it)
        g.create_dataset('noofa_i', data=[len(f[0]) for f in m['faces']], dtype=it)
        g.create_dataset('noofa_v', data=[n for f in m['faces'] for n in f[0]], dtype=it)
        b = h.create_group('Boundaries')
        zones = sorted(m['zones'], key=lambda z: z[2:4])
        if rng.random() < 0.5:
            b.create_dataset('labels', data=[z[0].encode() for z in zones], dtype=h5py.string_dtype('utf-8', 128))
        else:
            b.create_dataset('labels', data=[z[0].encode() for z in zones], dtype=h5py.string_dtype('utf-8'))
        b.create_dataset('kinds', data=[z[1] for z in zones], dtype='i4')
        b.create_dataset('offsets', data=[z[2] for z in zones] + [zones[-1][3] + 1], dtype='i4')
        for z in zones:
            if len(z[4]):
                b.create_group(z[0]).create_dataset('periodic_transform', data=np.array(z[4][:3], dtype=float))
    if sol is None:
        return
    with h5py.File(sol, 'w') as h:
        h.attrs.update({'step': m['step'], 'time': m['time']})
        for n, v in m['cons']:
            h.create_dataset(n, data=np.array(v, dtype=float))
        if m['stats'] is not None:
            g = h.create_group('VolumeStats')
            for n, w in m['wgt']:
                g.attrs[n.lower()] = w
            for n, v in m['stats']:
                g.create_dataset(n, data=np.array(v, dtype=float))
