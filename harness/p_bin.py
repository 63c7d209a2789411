"""Bins, mobs and source clips: lookups of the real code against AvbBin, through AvbDoc."""
import base, gen, wire
import p_wire as pw
import p_doc as pd


def pool(rng):
    """ids that differ in single places"""
    b = [rng.randrange(256) for _ in range(32)]
    out = [tuple(b)]
    for k in rng.sample([0, 5, 11, 12, 13, 14, 15, 16, 20, 23, 24, 31], 6):
        x = list(b)
        x[k] ^= rng.choice([1, 128, 255])
        out.append(tuple(x))
    return [list(x) for x in out]


def mobdoc(c, sc, ids, big=False, distinct=True, sparse=.75):
    rng = c.rng
    g = gen.Gen(sc, rng, 0)
    comps = [k for k in sorted(sc.classes) if 'media_kind_id' in sc.props(k) and k != 'CMPO']
    holders = [k for k in sorted(sc.classes) if k not in ('CMPO', 'ABIN', 'BINF', 'SCLP')
               and any(has_ref(it) for it, need in sc.props(k).values())]
    nodes, mobs = [], []
    mids = list(ids)
    rng.shuffle(mids)
    for m in range(rng.randrange(2, 7)):
        mine, used = [], set()

        def pick(w):
            if not mine or rng.random() > sparse:
                return [0, 0, 0, 0]
            # what is not used yet first
            free = [k for k in mine if k not in used]
            k = rng.choice(free if free and rng.random() < .8 else mine)
            used.add(k)
            return gen.be(k, 4)
        kinds = ['SCLP'] * rng.randrange(0, 5) + [rng.choice(holders) for _ in range(rng.randrange(1, 6))]
        first = kinds[:rng.randrange(len(kinds) + 1)]
        rng.shuffle(kinds)
        for cid in kinds:
            g.nleaf = 1
            rec = wire.map_refs(sc, cid, g.rec(cid), pick)
            if 'media_kind_id' in rec:
                rec['media_kind_id'] = gen.be(rng.choice([0, 1, 1, 1, 2, 2, 3, 6, 16, 9]), 2)
            if cid == 'SCLP':
                rec['mob_id'] = list(rng.choice(ids)) if rng.random() < .9 else rec.get('mob_id', [0] * 32)
                rec['track_id'] = gen.be(rng.randrange(4), 2)
            nodes.append((cid, rec))
            mine.append(len(nodes))
        rec = g.rec('CMPO', 1.0)
        rec = wire.map_refs(sc, 'CMPO', rec, lambda w: [0, 0, 0, 0])
        free = [k for k in mine if k not in used]
        tracks, rest = [], []
        for k in free + [k for k in mine if k in used and rng.random() < .2]:
            if nodes[k - 1][0] in comps:
                t = {'component': gen.be(k, 4), 'lock_number': [0, 0]}
                if rng.random() < .8:
                    t['index'] = gen.be(rng.randrange(4), 2)
                tracks.append(t)
                if rng.random() < .3:
                    # the same material on a track of another number
                    tracks.append(dict(t, index=gen.be(rng.randrange(4), 2)))
            else:
                rest.append(k)
        for t in ({'index': gen.be(rng.randrange(4), 2), 'lock_number': [0, 0]}, {'lock_number': [0, 0]},
                  {'index': gen.be(1, 2), 'component': [0, 0, 0, 0], 'lock_number': [0, 0]}):
            if rng.random() < .3:
                tracks.insert(rng.randrange(len(tracks) + 1), t)
        rec['tracks'] = tracks
        if rest:
            nodes.append(('ATTR', {'items': [{'k': list(b'r%d' % k), 't': 3, 'v': gen.be(k, 4)} for k in rest]}))
            rec['attributes'] = gen.be(len(nodes), 4)
        rec['mob_type_id'] = [rng.choice([1, 2, 3])]
        rec['usage_code'] = gen.be(rng.choice([0, 0, 0, 1, 5, 256]), 4)
        rec['mob_id'] = list(mids[m % len(mids)] if distinct else rng.choice(ids))
        nodes.append(('CMPO', rec))
        mobs.append(len(nodes))
    order = list(mobs)
    rng.shuffle(order)
    if order and rng.random() < .2:
        order.append(rng.choice(order))
    if len(order) > 1 and rng.random() < .2:
        gone = order.pop()
        nodes.append(('ATTR', {'items': [{'k': [97], 't': 3, 'v': gen.be(gone, 4)}]}))
        hub = len(nodes)
    else:
        hub = 0
    root = g.rec('ABIN')
    root = wire.map_refs(sc, 'ABIN', root, lambda w: [0, 0, 0, 0])
    item = {}
    root['items'] = [dict(g.items(sc.binitem), mob=gen.be(k, 4)) for k in order]
    root['attributes'] = gen.be(hub, 4)
    nodes.append(('ABIN', root))
    return nodes


def has_ref(it):
    return (it['op'] == 'fld' and it['t'] == 'ref' or it['op'] in ('refs', 'tracks', 'attrs') or
            it['op'] in ('recs', 'recbody') and any(has_ref(s) for s in it['items']) or
            it['op'] == 'case' and any(t == 'ref' for k, t in it['alts']))


def run(c, script, steps, n, distinct, prefixes):
    sc = c.schema()
    docs, pools = [], []
    for _ in range(n):
        ids = pool(c.rng)
        pools.append(ids)
        docs.append(mobdoc(c, sc, ids, distinct=distinct))
    fs = pd.files(c, sc, docs, [c.rng.choice(['little', 'big']) for _ in docs])
    tr = [{'start': {'1': p}, 'seed': c.rng.getrandbits(48),
           'prof': {'script': script, 'steps': steps, 'ids': ids, 'again': 0, 'shown': False}} for p, ids in zip(fs, pools)]
    got = pd.run_traces(c, sc, tr)
    pd.judge(c, tr, got, prefixes)
    c.cov['mobs'] = sum(1 for d in docs for x in d if x[0] == 'CMPO')
    c.cov['source_clips'] = sum(1 for d in docs for x in d if x[0] == 'SCLP')


def c15(c):
    run(c, {'findmob': 20, 'filters': 8, 'mobedit': 20, 'reopen': 1, 'gc': 1, 'drop': 2}, 60, 500 if c.thorough else 72, False, None)


def c16(c):
    graphs(c)
    run(c, {'deps': 14, 'mobedit': 8, 'reopen': 1, 'gc': 1, 'drop': 2}, 30, 600 if c.thorough else 72, True, None)


def graphs(c):
    """small mob graphs exhaustively, larger ones at random"""
    rng = c.rng
    cases = []

    def add(n, edges):
        cases.append({'n': n, 'edges': edges, 'seed': rng.getrandbits(32), 'save': rng.random() < .3})
    for n in (1, 2, 3):
        pairs = [[a, b] for a in range(1, n + 1) for b in range(1, n + 1)]
        for mask in range(1 << len(pairs)):
            add(n, [p for k, p in enumerate(pairs) if mask >> k & 1])
    for _ in range(4000 if c.thorough else 250):
        n = rng.randrange(4, 10)
        # numbers above n name mobs that do not exist
        add(n, [[rng.randrange(1, n + 1), rng.randrange(1, n + 3)] for _ in range(rng.randrange(2 * n + 4))])
    for _ in range(200 if c.thorough else 24):
        n = rng.randrange(4, 12)
        perm = list(range(1, n + 1))
        rng.shuffle(perm)
        add(n, [[perm[a], perm[b]] for a in range(n) for b in range(a + 1, n) if rng.random() < .5])
    add(90, [[k, k + 1] for k in range(1, 90)])
    add(60, [[k, k % 60 + 1] for k in range(1, 61)] + [[k, 61] for k in range(1, 61, 7)])
    parts = [list(range(len(cases)))[i::8] for i in range(8)]
    hs = [(ks, c.driver_start('drv_mobs.py', {'cases': [cases[k] for k in ks]})) for ks in parts]
    live = []
    for ks, h in hs:
        r = c.driver_wait(h, 300)
        if isinstance(r, dict):
            c.violation('mob graphs', 'listing the mobs a mob depends on does not end' if 'hang' in r else 'the driver stopped', r)
            continue
        for k, x in zip(ks, r):
            if 'err' in x:
                c.violation('mob graph', 'listing the mobs a mob depends on raised %s' % x, {'case': cases[k]})
            else:
                live.append(dict(cases[k], **x))
    for e, bad in zip(live, c.tlc_batch('MobTrace', live, stuck=[[0, 'the mobs listed are not those of any bin']])):
        for x, what in bad:
            c.violation('graph ' + what, what, {'case': e, 'mob': x})
    c.cov['mob_graphs'] = len(cases)


def c24(c):
    run(c, {'clip': 20, 'mobedit': 14, 'reopen': 1, 'gc': 1, 'drop': 2}, 50, 500 if c.thorough else 80, True, None)


CHECKS = {'C15': (pw.TV, c15), 'C16': (pw.TV, c16), 'C24': (pw.TV, c24)}
