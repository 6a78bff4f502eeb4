"""Independent reader and writer of IC3 version 2/3 files (no code of cfdtools).

A parsed file is plain data: the chain of sections with decoded content.
"""
import struct

MAGIC = 123581321
HDR = 256
IDS = {10: 'COUNTS', 11: 'I0', 12: 'D0', 20: 'FA_CHECK', 21: 'NOOFA', 22: 'CVOFA', 23: 'FA_ZONE', 24: 'FA_D1', 25: 'FA_D3',
       26: 'FA_II1', 30: 'NO_CHECK', 31: 'X_NO', 32: 'NO_D1', 33: 'NO_D3', 34: 'NO_II1', 40: 'CV_CHECK', 41: 'CV_PART',
       42: 'CV_D1', 43: 'CV_D3', 44: 'CV_D33', 45: 'CV_II1', 50: 'DATA', 51: 'EOF'}
CODE = {v: k for k, v in IDS.items()}
BASE = {'FA_CHECK': 'i', 'NO_CHECK': 'i', 'CV_CHECK': 'i', 'CVOFA': 'i', 'CV_PART': 'i', 'NOOFA': 'i',
        'X_NO': 'd', 'NO_D1': 'd', 'NO_D3': 'd', 'CV_D1': 'd', 'CV_D3': 'd', 'CV_D33': 'd', 'FA_D1': 'd', 'FA_D3': 'd',
        'NO_II1': 'q', 'CV_II1': 'q', 'FA_II1': 'q'}


def hexd(x):
    return struct.pack('>d', x).hex()


def raw_sections(b):
    """(endian, magic, version, [(start, name, id, skip, idata, rdata, data bytes)], end reached, error)"""
    if len(b) < 8:
        return None
    en = '>' if struct.unpack('>i', b[:4])[0] == MAGIC else '<'
    magic, version = struct.unpack(en + 'ii', b[:8])
    pos, secs, err = 8, [], ''
    while pos < len(b):
        if pos + HDR > len(b):
            err = 'incomplete header'
            break
        h = struct.unpack(en + '52siq8q16d', b[pos:pos + HDR])
        name, sid, skip, idata, rdata = h[0], h[1], h[2], h[3:11], h[11:27]
        end = pos + skip
        if skip < HDR or end > len(b):
            err = 'bad skip'
            secs.append((pos, name, sid, skip, idata, rdata, b''))
            break
        secs.append((pos, name, sid, skip, idata, rdata, b[pos + HDR:end]))
        pos = end
        if sid == CODE['EOF']:
            break
    return en, magic, version, secs, pos, err


def parse(b):
    """the record given to TLC"""
    r = raw_sections(b)
    if r is None:
        return {'endian': '', 'magic': 0, 'version': 0, 'sec': [], 'end': 0, 'size': len(b), 'err': 'no header'}
    en, magic, version, secs, end, err = r
    out = []
    for pos, name, sid, skip, idata, rdata, data in secs:
        kind = IDS.get(sid, 'OTHER')
        nm = name.split(b'\0')[0].decode('latin1')
        base = BASE.get(kind)
        s = {'k': kind, 'id': sid, 'name': nm, 'start': pos, 'skip': skip if abs(skip) < 2 ** 31 else -1,
             'clean': name.rstrip(b'\0') == name.split(b'\0')[0],
             'i': [v if abs(v) < 2 ** 31 else -2147483647 for v in idata], 'r': [hexd(v) for v in rdata], 'nb': len(data), 'v': []}
        if base:
            w = struct.calcsize(en + base)
            n = len(data) // w
            vals = struct.unpack(en + base * n, data[:n * w])
            s['v'] = [hexd(v) for v in vals] if base == 'd' else [str(v) for v in vals] if base == 'q' else list(vals)
            s['rest'] = len(data) - n * w
            if kind == 'NOOFA':  # prefix sums, a witness the specification checks
                off, nf = [0], max(0, min(idata[0], n))
                for k in vals[:nf]:
                    off.append(off[-1] + k)
                s['off'] = off
        else:
            s['rest'] = len(data)
        s['istep'] = str(idata[0]) if kind == 'I0' else ''
        s['isw'] = nm.upper().endswith('_WGT')
        s['low'] = nm[:-4].lower() if s['isw'] else nm.lower()
        out.append(s)
    return {'endian': en, 'magic': magic, 'version': version, 'sec': out, 'end': end, 'size': len(b), 'err': err}


def build(en, version, secs, magic=MAGIC):
    """secs: (name bytes, id, idata, rdata, data bytes[, skip])"""
    b = struct.pack(en + 'ii', magic, version)
    for s in secs:
        name, sid, idata, rdata, data = s[:5]
        skip = s[5] if len(s) > 5 else HDR + len(data)
        idata = list(idata) + [0] * (8 - len(idata))
        rdata = list(rdata) + [0.0] * (16 - len(rdata))
        b += struct.pack(en + '52siq8q16d', name, sid, skip, *idata, *rdata) + data
    return b


def resection(b, order=None, extra=(), endian=None):
    """same content with sections in another order / with additional sections / another byte order.
    order: permutation of the non EOF sections; extra: list of (position, name, id, data)"""
    en, magic, version, secs, end, err = raw_sections(b)
    assert not err
    body = [s for s in secs if s[2] != CODE['EOF']]
    eof = [s for s in secs if s[2] == CODE['EOF']]
    if order is not None:
        body = [body[i] for i in order]
    new = [(s[1], s[2], s[4], s[5], s[6]) for s in body]
    for pos, name, sid, data in extra:
        new.insert(pos, (name, sid, (len(data),), (), data))
    new += [(s[1], s[2], s[4], s[5], s[6]) for s in eof]
    if endian and endian != en:
        conv = []
        for name, sid, idata, rdata, data in new:
            base = BASE.get(IDS.get(sid, ''), None)
            if base and data:
                n = len(data) // struct.calcsize(en + base)
                data = struct.pack(endian + base * n, *struct.unpack(en + base * n, data))
            conv.append((name, sid, idata, rdata, data))
        new, en = conv, endian
    return build(en, version, new)


def fabricate(version, en, mesh):
    """a file from plain data: nnode, ncell, faces [(nodes, (c0, c1))], zones [(name, kind, a, b, per)],
    xyz, part (npart, list), step, dt, time, wgt [(NAME, v)], fields [(kind, name, ndof, values)]"""
    nf = len(mesh['faces'])
    nn = sum(len(f[0]) for f in mesh['faces'])
    no, cv = mesh['nnode'], mesh['ncell']

    def p(base, vals):
        return struct.pack(en + base * len(vals), *vals)

    S = [(b'NO_FA_CV_NOOFA_COUNTS', 10, (no, nf, cv, nn), (), b'')]
    if version == 2:
        S += [(b'NO_CHECK', 30, (no,), (), p('i', range(no))), (b'FA_CHECK', 20, (nf,), (), p('i', range(nf))),
              (b'CV_CHECK', 40, (cv,), (), p('i', range(cv)))]
    S.append((b'NOOFA_I_AND_V', 21, (nf, nn), (), p('i', [len(f[0]) for f in mesh['faces']])
              + p('i', [n for f in mesh['faces'] for n in f[0]])))
    S.append((b'CVOFA', 22, (nf, 2), (), p('i', [c for f in mesh['faces'] for c in f[1]])))
    for name, kind, a, b, per in mesh['zones']:
        S.append((name.encode(), 23, (kind, a, b), per, b''))
    S.append((b'CV_PART', 41, (cv, mesh['part'][0]), (), p('i', mesh['part'][1])))
    S.append((b'X_NO', 31, (no, 3), (), p('d', [c for x in mesh['xyz'] for c in x])))
    S.append((b'DATA', 50, (), (), b''))
    S.append((b'STEP', 11, (mesh['step'],), (), b''))
    S.append((b'DT', 12, (), (mesh['dt'],), b''))
    S.append((b'TIME', 12, (), (mesh['time'],), b''))
    for name, v in mesh['wgt']:
        S.append((name.encode(), 12, (), (v,), b''))
    for kind, name, ndof, vals in mesh['fields']:
        n = {'NO': no, 'CV': cv, 'FA': nf}[kind[:2]]
        i1 = (ndof if version == 3 else 0) if kind.startswith('CV') else 3 if kind.endswith('D3') else 0
        S.append((name.encode(), CODE[kind], (n, i1), (), p('q' if kind.endswith('II1') else 'd', vals)))
    S.append((b'EOF', 51, (), (), b''))
    return build(en, version, S)
