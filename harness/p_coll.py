"""Reference lists (C13) and attribute maps (C14) against AvbColl."""
import itertools
import base, gen, wire
import p_wire as pw
import p_doc as pd

OPT = [[]] + [[k] for k in range(-5, 6)]


def list_ops(rng):
    def x():
        return rng.randrange(4)

    def xs():
        return [x() for _ in range(rng.randrange(4))]

    def i():
        return rng.randrange(-6, 7)

    def o():
        return rng.choice(OPT)

    def body():
        n = rng.choice(['append', 'insert', 'pop', 'del', 'set', 'delslice', 'setslice', 'clear', 'reverse', 'extend', 'len', 'sort', 'extendself'])
        return make(rng, list_ops(rng), n)

    def c():
        return rng.choice([[], [], [1], [2], [3], [-1], [-2], [0], [1000000], [-4]])
    return {
        'append': lambda: dict(x=x()), 'extend': lambda: dict(xs=xs()), 'extendgen': lambda: dict(xs=xs()),
        'extendbad': lambda: dict(xs=xs()), 'iadd': lambda: dict(xs=xs()), 'insert': lambda: dict(i=i(), x=x()),
        'remove': lambda: dict(x=x()), 'pop': lambda: dict(at=rng.choice([[], [i()]])), 'del': lambda: dict(i=i()),
        'get': lambda: dict(i=i()), 'set': lambda: dict(i=i(), x=x()), 'getslice': lambda: dict(a=o(), b=o(), c=c()),
        'delslice': lambda: dict(a=o(), b=o(), c=c()), 'setslice': lambda: dict(a=o(), b=o(), c=c(), xs=xs()),
        'clear': dict, 'sort': lambda: dict(m=rng.choice([2, 3, 5]), down=rng.random() < .5), 'reverse': dict,
        'index': lambda: rng.choice([dict(x=x(), a=[], b=[]), dict(x=x(), a=[i()], b=[]), dict(x=x(), a=[i()], b=[i()])]),
        'count': lambda: dict(x=x()), 'in': lambda: dict(x=x()), 'notin': lambda: dict(x=x()), 'iter': dict, 'tuple': dict,
        'unpack': dict, 'enum': dict, 'reversed': dict, 'sorted': lambda: dict(m=rng.choice([2, 3, 5]), down=rng.random() < .5),
        'len': dict, 'bool': dict, 'add': lambda: dict(xs=xs()), 'radd': lambda: dict(xs=xs()), 'mul': lambda: dict(i=rng.randrange(-1, 4)),
        'imul': lambda: dict(i=rng.randrange(-1, 4)), 'eq': lambda: dict(xs=xs()), 'ne': lambda: dict(xs=xs()),
        'extendself': dict, 'sliceself': dict, 'loop': lambda: dict(back=rng.random() < .3, body=[body() for _ in range(rng.randrange(5))])}


def map_ops(rng):
    def k():
        return rng.randrange(1, 4)

    def v():
        return rng.randrange(7)

    def xs():
        out = []
        for _ in range(rng.randrange(4)):
            out += [k(), v()]
        return out

    def d():
        return rng.choice([[], [v()]])
    kv = lambda: dict(k=k(), x=v())
    return {'set': kv, 'del': lambda: dict(k=k()), 'get': lambda: dict(k=k()), 'getd': lambda: dict(k=k(), d=d()),
            'pop': lambda: dict(k=k(), d=d()), 'popitem': lambda: dict(last=rng.random() < .6, plain=rng.random() < .5),
            'setdefault': lambda: dict(k=k(), d=d()), 'update': lambda: dict(xs=xs()), 'updatepairs': lambda: dict(xs=xs()),
            'updateattr': lambda: dict(xs=xs()), 'ior': lambda: dict(xs=xs()), 'or': lambda: dict(xs=xs()), 'clear': dict,
            'keys': dict, 'iter': dict, 'reversed': dict, 'values': dict, 'items': dict, 'dict': dict, 'len': dict, 'bool': dict,
            'in': lambda: dict(k=k()), 'move': lambda: dict(k=k(), last=rng.random() < .5), 'eq': lambda: dict(xs=xs()),
            'loop': lambda: dict(of=rng.choice(['keys', 'values', 'items']), body=[kv() for _ in range(rng.randrange(5))]),
            'eqordered': lambda: dict(xs=xs()), 'ror': lambda: dict(xs=xs())}


def make(rng, table, name=None):
    name = name or rng.choice(sorted(table))
    return dict(table[name](), op=name)


def states(is_map):
    if not is_map:
        return [list(s) for n in range(4) for s in itertools.product(range(4), repeat=n)]
    out = []
    for n in range(4):
        for ks in itertools.permutations((1, 2, 3), n):
            for vs in itertools.product((0, 1, 2, 4, 5, 6) if n < 3 else (0, 1, 5), repeat=n):
                out.append([y for kv in zip(ks, vs) for y in kv])
    return out


def document(c, sc, conts, kinds):
    """a file with every content as a stored collection of every kind: {(kind, n): key}"""
    g = gen.Gen(sc, c.rng, 0)
    g.nleaf = 0
    nodes, keys, hub = [], {}, []

    def ref(n):
        return gen.be(n, 4)
    for n in (1, 2, 3):
        if n == 2:
            r = g.rec('FILL')
            nodes.append(('FILL', r))
        else:
            nodes.append(('ATTR', {'items': [{'k': list(b'id'), 't': 1, 'v': ref(1)}]}))
        hub.append((u'leaf%d' % n, n))
    names = [None, b'a', b'bb', u'c\u00e9'.encode('mac_roman')]
    for i, s in enumerate(conts):
        for kind in kinds:
            if kind == 'ATTR':
                items = []
                for j in range(0, len(s), 2):
                    v = s[j + 1]
                    t, w = ((3, ref(v)) if v < 4 else (1, gen.be(-7 & 0xffffffff, 4)) if v == 4 else
                            (2, list(u'text \u00e9'.encode('mac_roman'))) if v == 5 else (4, [0, 255, 7]))
                    items.append({'k': list(names[s[j]]), 't': t, 'v': w})
                nodes.append(('ATTR', {'items': items}))
            else:
                r = g.rec(kind)
                n = [x for x, (it, need) in sc.props(kind).items() if it['op'] == 'refs'][0]
                r[n] = [ref(x) for x in s]
                nodes.append((kind, r))
            keys[kind, i] = 'c%d' % len(nodes)
            hub.append(('c%d' % len(nodes), len(nodes)))
    nodes.append(('ATTR', {'items': [{'k': list(k.encode()), 't': 3, 'v': ref(n)} for k, n in hub]}))
    g.nleaf = len(nodes)
    g.nleaf = 0
    root = g.rec('ABIN')
    root['attributes'] = ref(len(nodes))
    nodes.append(('ABIN', root))
    return nodes, keys


TYPES = ['integer', 'boolean', 'text', 'bytearray', 'object', 'nothing', 'bytes', 'empty bytes', 'float', 'whole float', 'list',
         'list of numbers', 'tuple', 'dict', 'ordered dict', 'set', 'complex', 'object()', 'mob id', 'date', 'uuid', 'decimal',
         'fraction', 'class', 'function', 'ellipsis', 'memoryview', 'array', 'range', 'document', 'track', 'properties',
         'notimplemented']
KEYTYPES = ['text', 'bytes', 'number', 'nothing', 'tuple']


CHANGES = {False: ['append', 'extend', 'extendgen', 'extendbad', 'iadd', 'insert', 'remove', 'pop', 'del', 'set', 'delslice', 'setslice',
                   'clear', 'sort', 'reverse', 'imul', 'extendself', 'sliceself'],
           True: ['set', 'del', 'pop', 'popitem', 'setdefault', 'update', 'updatepairs', 'updateattr', 'ior', 'clear', 'move']}


def run(c, is_map, table, kinds, singles, seqs, seqlen, lost=0):
    sc = c.schema()
    conts = states(is_map)
    if not c.thorough:
        # as many of every size
        by = {}
        for s in c.rng.sample(conts, len(conts)):
            by.setdefault(len(s), []).append(s)
        conts = sorted((s for x in by.values() for s in x[:13]), key=lambda s: c.rng.random())
    keyed = []
    docs = []
    for at in range(0, len(conts), 20):
        nodes, keys = document(c, sc, conts[at:at + 20], kinds)
        docs.append(nodes)
        keyed += [(len(docs) - 1, i, keys) for i in range(len(conts[at:at + 20]))]
    fs = pd.files(c, sc, docs, [c.rng.choice(['little', 'big']) for _ in docs])
    cases = []
    rng = c.rng

    def start(j):
        d, i, keys = keyed[j]
        kind = rng.choice(kinds)
        return dict(map=is_map, s=conts[j], kind=kind, key=keys[kind, i], path=fs[d], new=rng.random() < .25 and kind != 'SEQU')
    names = sorted(table)
    for j in range(singles):
        e = dict(start(j % len(conts)), ops=[make(rng, table, names[(j // len(conts)) % len(names)] if j < len(conts) * len(names) else None)])
        if e['ops'][0]['op'] in ('eq', 'ne', 'eqordered') and rng.random() < .6:
            # the same, or with equal objects in their places
            e['ops'][0]['xs'] = [x if is_map and not i % 2 else rng.choice([x, 4 - x]) if x in (1, 3) else x for i, x in enumerate(e['s'])]
        cases.append(e)
    for j in range(seqs):
        e = dict(start(rng.randrange(len(conts))), ops=[make(rng, table) for _ in range(rng.randrange(2, seqlen))])
        e['late'] = rng.random() < .4
        if rng.random() < .6:
            e['save'] = rng.choice(['little', 'big'])
            e['drop'] = rng.random() < .5
        cases.append(e)
    for j in range(lost):
        # one change of a collection nobody keeps, then saved
        cases.append(dict(start((j // len(CHANGES[is_map])) % len(conts)), ops=[make(rng, table, CHANGES[is_map][j % len(CHANGES[is_map])])],
                          late=True, drop=True, new=False, save=rng.choice(['little', 'big'])))
    if is_map and seqs:
        for t in TYPES + KEYTYPES:
            for _ in range(3):
                cases.append(dict(start(rng.randrange(len(conts))), ops=[{'op': 'savekey' if t in KEYTYPES and t not in TYPES or t == 'text'
                                                                          and rng.random() < .5 else 'savevalue', 'ty': t}]))
        for t in KEYTYPES:
            cases.append(dict(start(rng.randrange(len(conts))), ops=[{'op': 'savekey', 'ty': t}]))
    if not is_map:
        # other reference lists of the document as operands
        for e in cases:
            for o in e['ops']:
                if o['op'] in ('extend', 'iadd', 'setslice', 'eq', 'ne', 'add', 'radd') and rng.random() < .4:
                    d, i, keys = keyed[rng.randrange(len(conts))]
                    if fs[d] != e['path']:
                        continue
                    kind = rng.choice(kinds)
                    if keys[kind, i] == e['key'] and e['kind'] == kind and not e['new']:
                        continue
                    o['other'] = {'kind': kind, 'key': keys[kind, i]}
                    o['xs'] = conts[d * 20 + i]
    parts = [list(range(len(cases)))[i::8] for i in range(8)]
    hs = [(ks, c.driver_start('drv_coll.py', {'cases': [cases[k] for k in ks]})) for ks in parts]
    got = [None] * len(cases)
    for ks, h in hs:
        r = c.accept(c.driver_wait(h, 600), 'drv_coll.py')
        for k, x in zip(ks, r or []):
            got[k] = x
    live = []
    for k, x in enumerate(got):
        if x is None:
            continue
        if 'err' in x:
            c.violation('raised:%s' % x['err'], 'operations on a collection raised %s %s' % (x['err'], x['msg']), {'case': cases[k]})
        else:
            live.append(k)
    verdict = c.tlc_batch('CollTrace', [dict(cases[k], **got[k]) for k in live],
                          stuck=[{'at': 1, 'what': 'what was observed does not fit any state: the results'}])
    ops = {}
    for k, v in zip(live, verdict):
        for e in cases[k]['ops']:
            ops[e['op']] = ops.get(e['op'], 0) + 1
        for b in v:
            e = cases[k]['ops'][b['at'] - 1] if b['at'] <= len(cases[k]['ops']) else {'op': 'end'}
            kind = 'new ' + cases[k]['kind'] if cases[k]['new'] else 'read ' + cases[k]['kind']
            c.violation('%s %s %s' % (kind, e['op'] + (' ' + e['ty'] if 'ty' in e else ''), b['what']), '%s, %s: %s differ from those of an ordinary %s' % (
                kind, e['op'] + (' ' + e['ty'] if 'ty' in e else ''), b['what'], 'dictionary' if is_map else 'list'), {'case': cases[k], 'got': got[k], 'verdict': b})
    n = len(cases) + c.cov.get('programs', 0)
    m = sum(len(x['ops']) for x in cases) + c.cov.get('disagreements_checked', 0)
    c.cov.update(programs=n, disagreements_checked=m)
    if not seqs:
        return c.cov.setdefault('changes_of_collections_nobody_keeps', {}).update(ops)
    c.cov.update(operations=ops, contents=len(conts), saved_and_reopened=sum(1 for x in cases if x.get('save')))
    c.sample(cases[-1])


def c13(c):
    t = list_ops(c.rng)
    run(c, False, t, ['PRLS', 'TMCS', 'SEQU'], 60000 if c.thorough else 6000, 20000 if c.thorough else 1500, 12,
        4000 if c.thorough else 400)


def c14(c):
    t = map_ops(c.rng)
    run(c, True, t, ['ATTR'], 40000 if c.thorough else 4000, 20000 if c.thorough else 1500, 12,
        4000 if c.thorough else 400)


def lost(c):
    """for C07"""
    n = 6000 if c.thorough else 700
    run(c, False, list_ops(c.rng), ['PRLS', 'TMCS', 'SEQU'], 0, 0, 0, n)
    run(c, True, map_ops(c.rng), ['ATTR'], 0, 0, 0, n)


CHECKS = {'C13': (pw.TV, c13), 'C14': (pw.TV, c14)}
