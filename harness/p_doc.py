"""Document checks: traces of the real code replayed through AvbDoc."""
import os, re
import avbfile, base, gen, wire
import p_wire as pw

STUCK = 'content: what was observed fits no state of the document'


# ---- start documents ---------------------------------------------------------
def documents(c, sc, count, size=(6, 22), classes=None, loose=True):
    """object graphs; chunk k only refers to earlier ones, the root bin comes last"""
    docs = []
    every = sorted(sc.classes)
    deck = []
    for _ in range(count):
        n = c.rng.randrange(*size)
        g = gen.Gen(sc, c.rng, 0)
        nodes = []
        used = set()
        for k in range(1, n + 1):
            if not deck:
                deck = list(classes or every)
                c.rng.shuffle(deck)
            g.nleaf = k - 1
            cid = deck.pop()
            rec = g.rec(cid)

            def note(w):
                used.add(int.from_bytes(bytes(w), 'big'))
                return w
            wire.map_refs(sc, cid, rec, note)
            nodes.append((cid, rec))
        # what nothing refers to hangs on a list below the root
        hub = [k for k in range(1, n + 1) if k not in used]
        nodes.append(('ATTR', {'items': [{'k': list(b'n%d' % k), 't': 3, 'v': gen.be(k, 4)} for k in hub]}))
        g.nleaf = n
        root = g.rec('ABIN')
        root['attributes'] = gen.be(n + 1, 4)
        if c.rng.random() < .1:
            root.update(g.rec('BINF'))
            root['attributes'] = gen.be(n + 1, 4)
            nodes.append(('BINF', root))
        else:
            nodes.append(('ABIN', root))
        docs.append(nodes)
    return docs


def files(c, sc, docs, orders):
    """write the graphs with the specification's encoding"""
    cases = []
    for nodes, bo in zip(docs, orders):
        for cid, rec in nodes:
            cases.append({'bo': bo, 'cid': cid, 'nobj': len(nodes), 'rec': rec, 'wantenc': 1})
    res = c.tlc_batch('WireTrace', cases)
    out, k = [], 0
    for i, (nodes, bo) in enumerate(zip(docs, orders)):
        chunks = [(cid, bytes(res[k + j]['enc'])) for j, (cid, rec) in enumerate(nodes)]
        k += len(nodes)
        c.ndoc = getattr(c, 'ndoc', 0) + 1
        p = c.path('doc%d.avb' % c.ndoc)
        with open(p, 'wb') as fh:
            fh.write(avbfile.build(bo, chunks, len(chunks), when=c.rng.getrandbits(32), creator=b'verif %d' % i))
        out.append(p)
    return out


def run_traces(c, sc, traces, src=None, py=base.PURE, shards=8):
    parts = [list(range(len(traces)))[i::shards] for i in range(shards)]
    hs = []
    for ks in parts:
        if ks:
            job = {'schema': pw.sc_path(c), 'traces': [traces[k] for k in ks]}
            hs.append((ks, c.driver_start('drv_doc.py', job, src=src, py=py)))
    out = [None] * len(traces)
    for ks, h in hs:
        r = c.accept(c.driver_wait(h, 600), 'drv_doc.py')
        for k, x in zip(ks, r or []):
            out[k] = x
    return out


def judge(c, traces, got, prefixes, label='', known=None):
    """replay through the model; complaints that concern this property are violations"""
    live = [k for k, x in enumerate(got) if x]
    res = c.tlc_batch('DocTrace', [got[k]['ev'] for k in live], stuck=[[1, STUCK]])
    other = {}
    for k, bad in zip(live, res):
        for at, what in bad:
            kind = what.split(':')[0]
            if prefixes and kind not in prefixes and what != STUCK:
                other[what] = other.get(what, 0) + 1
                continue
            key = (known(traces[k], got[k], at, what) if known else None) or '%s%s' % (label, what)
            c.violation(key, '%s%s' % (label, what), {'trace': traces[k], 'event': at, 'complaint': what,
                        'events': [short(e) for e in got[k]['ev'][:at]], 'at_event': got[k]['ev'][at - 1]})
    ops, locs = {}, {}
    n = 0
    for x in got:
        if x:
            n += len(x['ev'])
            for e in x['ev']:
                ops[e['op']] = ops.get(e['op'], 0) + 1
            for l, m in x['counts'].items():
                locs[l] = locs.get(l, 0) + m
    c.cov['traces'] = c.cov.get('traces', 0) + len(live)
    c.cov['disagreements_checked'] = c.cov.get('disagreements_checked', 0) + n
    c.cov['programs'] = c.cov['traces']
    old = c.cov.setdefault('events', {})
    for o, m in ops.items():
        old[o] = old.get(o, 0) + m
    c.cov['edited_places'] = max(c.cov.get('edited_places', 0), len(locs))
    if other:
        c.cov['complaints_of_other_properties'] = other
    return res


def short(e):
    return {k: v for k, v in e.items() if k not in ('bytes', 'nodes', 'left')}


def starts(c, sc, n, two=.0, new=.15, orders=('little', 'big'), **kw):
    """start documents for n traces: {doc: path or None}"""
    want = []
    for i in range(n):
        docs = ['1'] + (['2'] if c.rng.random() < two else [])
        want.append({d: c.rng.random() >= new for d in docs})
    m = sum(x for w in want for x in w.values())
    docs = documents(c, sc, m, **kw)
    fs = iter(files(c, sc, docs, [c.rng.choice(orders) for _ in docs]))
    return [{d: next(fs) if x else None for d, x in w.items()} for w in want]


def traces_of(c, sc, n, prof, **kw):
    return [{'start': s, 'seed': c.rng.getrandbits(48), 'prof': prof} for s in starts(c, sc, n, **kw)]


EDITS = {'edit': 30, 'create': 5, 'hold': 4, 'drop': 5, 'gc': 2, 'view': 2, 'same': 2, 'save': 2, 'reopen': 2, 'look': 3}


def with_ops(**kw):
    d = dict(EDITS)
    d.update(kw)
    return {k: v for k, v in d.items() if v}


def check(prof, quick, deep, prefixes=None, known=None, pre=None, big=0, **kw):
    """random documents and operations, replayed through AvbDoc"""
    def body(c):
        if pre:
            pre(c)
        sc = c.schema()
        p = dict(prof)
        p['steps'] = int(p.get('steps', 40) * (1.5 if c.thorough else 1))
        tr = traces_of(c, sc, deep if c.thorough else quick, p, **kw)
        got = run_traces(c, sc, tr)
        judge(c, tr, got, prefixes, known=known)
        if big:
            # a few documents of many objects
            p['steps'] = min(p['steps'], 24)
            tr = traces_of(c, sc, big * (6 if c.thorough else 1), p, **dict(kw, size=(70, 130), new=0))
            judge(c, tr, run_traces(c, sc, tr), prefixes, known=known)
    return body


def c07(c):
    import p_coll, p_life
    check({'script': EDITS, 'again': 0}, 88, 600, big=8)(c)
    p_coll.lost(c)
    p_life.life(c, ('lost',), 2500, 80000, 100)
    p_life.model(c)
    sc = c.schema()
    # nested changes of objects nobody keeps (known findings are told apart by what was changed)
    prof = {'script': ['nested_released', 'gc', 'save'], 'end': False, 'again': 0, 'release': True, 'shown': False}
    tr = traces_of(c, sc, 200 if c.thorough else 48, prof, new=0, size=(2, 8))
    got = run_traces(c, sc, tr)
    # the finding is exactly this: the file is that of the document without the change
    live = [k for k, x in enumerate(got) if x and inner(x)]
    without = [[e for e in got[k]['ev'] if e is not inner(got[k])] for k in live]
    lost = [got[k] for k, bad in zip(live, c.tlc_batch('DocTrace', without, stuck=[[1, STUCK]])) if not bad]
    judge(c, tr, got, None, known=lambda t, g, at, what: 'nested-released:%s %s' % (inner(g)['op'], what)
          if any(g is x for x in lost) and what.startswith('content: the saved file: ') else None)


def c08(c):
    import p_life
    check({'script': LOOKS, 'steps': 30, 'again': .3}, 72, 500, None, new=.05)(c)
    p_life.life(c, ('memory', 'reads', 'lost'), 1500, 40000, 60)


def c12(c):
    import p_life
    check({'script': with_ops(same=25, edit=8, create=8, view=6), 'steps': 50}, 72, 500, None, two=.2, big=8)(c)
    p_life.life(c, ('identity', 'lost'), 1500, 40000, 60)


def inner(got):
    """the change, if it was one inside the object"""
    e = [x for x in got['ev'] if x['op'] in ('set', 'setref', 'ins', 'del', 'rev', 'splice', 'clear')]
    if not e:
        return None
    steps = e[-1]['at']['steps']
    last = max([i for i, s in enumerate(steps) if s[0] == 'd'] or [-1])
    inside = steps[last + 1:]
    return None if len(inside) + (e[-1]['op'] not in ('set', 'setref')) < 2 else e[-1]


LOOKS = {'look': 12, 'view': 3, 'hold': 4, 'drop': 5, 'gc': 3, 'same': 3, 'save': 2}
COPIES = {'copies': 8, 'copyedit': 8, 'edit': 10, 'hold': 3, 'drop': 3, 'gc': 1, 'view': 6, 'save': 3, 'reopen': 1, 'create': 3}

def c01(c):
    pw.c01(c)
    n = c.cov['programs']
    check({'script': TRAVEL, 'steps': 16, 'again': .1}, 56, 500, None, new=.2)(c)
    c.cov['programs'] += n


def c04(c):
    pw.c04(c)
    n = c.cov.get('programs', 0)
    # the compiled reader under the same operations
    sc = c.schema()
    prof = {'script': with_ops(look=4), 'steps': 40, 'ext': True, 'again': .1}
    tr = traces_of(c, sc, 200 if c.thorough else 32, prof, new=0, orders=('little',))
    got = run_traces(c, sc, tr, src=c.build_ext(), py=base.EXTPY)
    judge(c, tr, got, None, label='compiled reader: ')
    c.cov['programs'] += n


def c25(c):
    """stored codes and their names, through the document machine"""
    sc = c.schema()
    names = re.findall(r'<< "([0-9a-f-]{36})"', open(os.path.join(base.SPEC, 'AvbParamNames.tla')).read())
    prof = {'script': dict(names=14, recode=16, edit=4, copies=1, gc=1, hold=1, drop=2, save=1, reopen=1), 'steps': 50, 'again': 0, 'shown': False}
    classes = ['PRCL', 'PRCL', 'PRIT', 'PRIT', 'CMPO', 'SLCT'] + sorted(k for k in sc.classes if 'media_kind_id' in sc.props(k))
    n = 500 if c.thorough else 72
    tr = traces_of(c, sc, n, prof, new=0, classes=classes, size=(4, 11))
    for t in tr:
        t['prof'] = dict(prof, params=c.rng.sample(names, 40))
    judge(c, tr, run_traces(c, sc, tr), None)
    c.cov['parameter_names'] = len(names)


TRAVEL = {'edit': 8, 'create': 3, 'restamp': 4, 'save': 3, 'reopen': 5, 'view': 3, 'copies': 2}

CHECKS = {
    'C01': (pw.TV, c01),
    'C04': (pw.TV, c04),
    'C05': (pw.TV, check({'script': with_ops(save=8, reopen=4, copies=2)}, 88, 600, None, big=8)),
    'C06': (pw.TV, check({'script': with_ops(edit=10, save=4, reopen=2), 'steps': 24, 'again': 1}, 72, 500, None)),
    'C07': (pw.TV, c07),
    'C08': (pw.TV, c08),
    'C09': (pw.TV, check({'script': with_ops(copies=25, edit=8), 'steps': 30}, 72, 500, None, two=.5)),
    'C10': (pw.TV, check({'script': COPIES, 'steps': 40}, 72, 500, None, two=.5)),
    'C11': (pw.TV, check({'script': with_ops(foreign=16, edit=6, copies=2, save=0), 'steps': 20}, 72, 500, None, two=1)),
    'C12': (pw.TV, c12),
    'C25': (pw.TV, c25),
}
