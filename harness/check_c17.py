"""C17: index lists and connectivities are the sequences they denote."""
import random

import numpy as np

import big
import bigger
from common import errtxt, outcome, pmap

ASSUMPTIONS = ['arguments given to the objects are not changed afterwards by the caller',
               'the compressed form is used with distinct numbers and faces of 2 to 4 nodes (all nodes of a face listed)']
NN = {'bar2': 2, 'tri3': 3, 'quad4': 4, 'hexa8': 8, 'prism6': 6}


def exact(v):
    i = int(v)
    if i != v:
        raise ValueError(f'not an integer: {v!r}')
    return i


def ints(seq):
    return [exact(v) for v in seq]


def p_obj(o):
    e = {'type': str(o.type), 'size': exact(o.size), 'list': ints(o.list())}
    e['items'] = [exact(o[k]) for k in range(e['size'])]
    e['rng'] = ints(o.range()) if o.type == 'range' else []
    ok, s = outcome(str, o)
    e['str'] = ok
    return e


def p_con(q):
    els = []
    for t, d in q.items():
        num = ints(d['index'].list())
        rows = [ints(r) for r in np.asarray(q[t]).tolist()]
        if len(num) != len(rows):
            raise ValueError(f'{len(num)} numbers for {len(rows)} elements')
        els += [[a, str(t), b] for a, b in zip(num, rows)]
    ok, r = outcome(q.check)
    return {'nelem': exact(q.nelem), 'els': els, 'all': ints(q.all_index()),
            'tup': [[exact(a), ints(b)] for a, b in q.index_elem_tuples()],
            'nodes': ints(q.nodelist()), 'ok': bool(ok and r is not False)}


def draw(kind, rng, last=None):
    if isinstance(kind, list):
        return list(kind)
    a = rng.randrange(0, 12)
    n = rng.randrange(2, 6)
    if kind == 'run':
        return list(range(a, a + n))
    if kind == 'next':
        s = (last[-1] + 1) if last else 0
        return list(range(s, s + n))
    if kind == 'hole':
        s = list(range(a, a + n + 1))
        s.pop(rng.randrange(1, n))
        return s
    if kind == 'reverse':
        return list(range(a + n, a, -1))
    if kind == 'perm':
        s = list(range(a, a + n))
        rng.shuffle(s)
        return s
    if kind == 'dup':
        s = list(range(a, a + n))
        s[rng.randrange(n)] = s[rng.randrange(n)]
        return s
    if kind == 'negative':
        return list(range(-3, -3 + n))
    if kind == 'one':
        return [a]
    if kind == 'big':
        return list(range(2 ** 30, 2 ** 30 + n))
    return []


def boxed(seq, box):
    if box == 'array':
        return np.array(seq, dtype=np.int64)
    if box == 'int32':
        return np.array(seq, dtype=np.int32)
    if box == 'tuple':
        return tuple(seq)
    return list(seq)


def history(job):
    import cfdtools.meshbase._connectivity as C

    cid, ops, seed = job
    rng = random.Random(seed)
    objs, cons, face = [], [], []
    given_away = set()  # index lists given to a connectivity belong to it
    ev = []

    def conlen(q):
        return sum(np.asarray(d['elem2node']).shape[0] for _, d in q.items())

    for op in ops:
        e = dict(op)
        given = None
        k = op['op']
        act = None
        if k in ('range', 'list'):
            s = draw(op['kind'], rng)
            e['seq'] = s
            if k == 'range':
                a = s[0] if s else rng.randrange(5)
                given = boxed([a, a + len(s) - 1], op['box'])
                act = lambda: objs.append(C.indexlist(irange=given))
            else:
                given = boxed(s, op['box'])
                act = lambda: objs.append(C.indexlist(ilist=given))
        elif k == 'shift':
            act = lambda: objs.append(objs[op['o'] - 1].shift(op['by']))
        elif k == 'concat':
            act = lambda: objs.append(objs[op['o'] - 1] + objs[op['p'] - 1])
        elif k == 'append':
            if op['o'] in given_away:
                continue
            s = draw(op['kind'], rng, objs[op['o'] - 1].list())
            e['seq'] = s
            given = boxed(s, op['box'])
            act = lambda: objs[op['o'] - 1].append(given)
        elif k == 'compress':
            act = lambda: objs[op['o'] - 1].compress()
        elif k == 'slice':
            o = objs[op['o'] - 1]
            n = len(o.list())
            e['arg'], e['at'], e['res'] = op['kind'], [], []
            if op['kind'] in ('index', 'negindex') and n == 0:
                e['arg'] = 'part'
            if e['arg'] in ('index', 'negindex'):
                i = rng.randrange(n)
                e['at'] = [i + 1]
                j = i if e['arg'] == 'index' else i - n
                act = lambda: [o[j]]
            elif e['arg'] == 'outside':
                act = lambda: [o[n + rng.randrange(3)]]
            else:
                a, b = sorted((rng.randrange(n + 1), rng.randrange(n + 1)))
                st = 1 if e['arg'] == 'part' else 2
                e['at'] = [i + 1 for i in range(a, b, st)]
                act = lambda: o[a:b:st]
        elif k == 'newcon':
            act = lambda: cons.append(C.elem_connectivity())
            face.append(op['face'])
        elif k in ('add', 'addobj'):
            q = cons[op['c'] - 1]
            t = op['t']
            if k == 'addobj':
                idx = objs[op['o'] - 1]
                given_away.add(op['o'])
                n = len(idx.list())
                if n > 40:
                    continue
            else:
                n = op['n']
                e['default'] = op['num'] == 'default'
                e['seq'] = []
                idx = None
                if not e['default']:
                    base = conlen(q)
                    s = list(range(base, base + n))
                    if op['num'] == 'perm':
                        rng.shuffle(s)
                    elif op['num'] == 'hole' and n > 0:
                        s[-1] += 2
                    elif op['num'] == 'dup' and n > 0:
                        s[-1] = rng.choice([0, base])
                    e['seq'] = s
                    idx = C.indexlist(ilist=boxed(s, rng.choice(['list', 'array'])))
            rows = [rng.sample(range(20), NN[t]) for _ in range(n)]
            e['rows'] = rows
            given = np.array(rows, dtype=np.int64).reshape(n, NN[t])
            act = (lambda: q.add_elems(t, given, idx)) if idx is not None else (lambda: q.add_elems(t, given))
        elif k == 'merge':
            def act():
                m = C.elem_connectivity()
                m.importfrom_merge(boxed([cons[i - 1] for i in op['cs']], rng.choice(['list', 'tuple'])))
                cons.append(m)
            face.append(all(face[i - 1] for i in op['cs']))
        elif k == 'compressed':
            q = cons[op['c'] - 1]
            pq = p_con(q)
            num = [x[0] for x in pq['els']]
            if not num or len(set(num)) < len(num) or any(x[1] not in ('bar2', 'tri3', 'quad4') for x in pq['els']):
                # outside the domain: an empty connectivity instead
                e = {'op': 'newcon'}
                act = lambda: cons.append(C.elem_connectivity())
            else:
                def act():
                    z = q.exportto_compressedindex()
                    e['ind'], e['val'] = ints(z._index), ints(z._value)
                    e['zcheck'] = bool(z.check()) and z.size == len(e['val'])
                    m = C.elem_connectivity()
                    m.importfrom_compressedindex(z)
                    cons.append(m)
            face.append(True)
        elif k == 'nodesof':
            q = cons[op['c'] - 1]
            num = ints(q.all_index())
            if len(set(num)) < len(num):
                continue
            s = [n for n in num if rng.random() < 0.5]
            rng.shuffle(s)
            if s and rng.random() < 0.3:
                s.append(s[0])
            e['seq'] = s
            given = s if op['box'] != 'array' else np.array(s, dtype=np.int64)
            act = lambda: q.nodes_of_indexlist(C.indexlist(ilist=s).list() if op['box'] == 'obj' else given)
        before = None if given is None else np.array(given).tolist()
        ok, r = outcome(act)
        e['exc'] = '' if ok else errtxt(r)
        e['kept'] = given is None or np.array(given).tolist() == before
        if ok and k in ('slice', 'nodesof'):
            ok, r = outcome(ints, r)
            e['res'] = r if ok else []
            e['exc'] = '' if ok else errtxt(r)
        if not ok and k not in ('slice',):
            e['objs'], e['cons'] = [], []
            ev.append(e)
            break
        ok, r = outcome(lambda: ([p_obj(o) for o in objs], [p_con(q) for q in cons]))
        e['objs'], e['cons'] = r if ok else ([], [])
        if not ok:
            e['exc'] = 'shown: ' + errtxt(r)
        ev.append(e)
        if not ok:
            break
    return {'id': cid, 'ev': ev}


def run(ctx):
    q = ctx.quick
    ctx.mc('IndexList', 'IndexList' if q else 'IndexListBig', timeout=1500)
    scen = ctx.gen('GenIndex', simulate=(2500 if q else 30000, 16), workers=1)
    # every short sequence: compressed, cut in two blocks of elements, merged, brought to compressed form
    rng = ctx.rng
    for s in ctx.gen('GenNumbers', 'GenNumbers' if q else 'GenNumbersBig'):
        k = rng.randrange(len(s) + 1)
        scen.append([{'op': 'list', 'kind': s, 'box': rng.choice(['list', 'array'])}, {'op': 'list', 'kind': s[:k], 'box': 'list'},
                     {'op': 'list', 'kind': s[k:], 'box': 'array'}, {'op': 'concat', 'o': 2, 'p': 3}, {'op': 'compress', 'o': 1},
                     {'op': 'newcon', 'face': True}, {'op': 'addobj', 'c': 1, 'o': 2, 't': 'tri3'},
                     {'op': 'addobj', 'c': 1, 'o': 3, 't': rng.choice(['tri3', 'quad4'])}, {'op': 'compressed', 'c': 1},
                     {'op': 'nodesof', 'c': 1, 'box': 'list'}])
    cases = pmap(history, [(f'h{i}', s, ctx.rng.randrange(1 << 30)) for i, s in enumerate(scen)])
    cases = [c for c in cases if c['ev']]
    ctx.notes['operations replayed'] = sum(len(c['ev']) for c in cases)
    ctx.validate('IndexTrace', cases)
    big.judge(ctx, bigger.lists_case, [(f'big{i}', n, ctx.rng.randrange(1 << 30)) for i, n in enumerate([4096, 65536, 70001] + ([] if ctx.quick else [1024, 100000, 32768, 1 << 17]))])
