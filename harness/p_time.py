"""Sequences in time (C17) against AvbTimeline."""
import json
import gen
import p_wire as pw
import p_doc as pd

KINDS = ['FILL', 'SCLP', 'TCCP', 'ECCP', 'TRKR', 'CTRL', 'TKFX', 'SLCT', 'SPED', 'RSET', 'SEQU', 'FILL', 'FILL']


def dress(rng, comps):
    """kinds for the components of a sequence of [tr, len]"""
    return [['TNFX' if x['tr'] else rng.choice(KINDS), x['len']] for x in comps]


def edits(rng, s, n):
    s = [list(x) for x in s]
    out = []
    for _ in range(n):
        k = rng.random()
        plain = [j for j, x in enumerate(s) if x[0] != 'SEQU']
        if s and k < .4 and plain:
            at = rng.choice(plain)
            e = {'op': 'len', 'at': at, 'n': rng.randrange(9)}
            s[at][1] = e['n']
        elif s and k < .55:
            e = {'op': 'del', 'at': rng.randrange(len(s))}
            del s[e['at']]
        elif len(s) > 1 and k < .7:
            a, b = rng.sample(range(len(s)), 2)
            e = {'op': 'swap', 'at': a, 'to': b}
            s[a], s[b] = s[b], s[a]
        else:
            e = {'op': 'ins', 'at': rng.randrange(len(s) + 1), 'kind': rng.choice(KINDS + ['TNFX', 'TNFX']), 'n': rng.randrange(9)}
            s.insert(e['at'], [e['kind'], e['n']])
        out.append(e)
    return out


def long_one(rng):
    """a longer sequence with an answer for every time"""
    out, n = [], rng.randrange(3, 30)
    big = rng.choice([6, 40, 1000, 10 ** 6])
    room = 0
    for _ in range(n):
        if room and rng.random() < .4:
            t = rng.randrange(0, room + 1)
            out.append({'tr': True, 'len': t})
            m = t + rng.randrange(big)
            out.append({'tr': False, 'len': m})
            room = m - t
        else:
            room = rng.choice([0, rng.randrange(big)])
            out.append({'tr': False, 'len': room})
        if rng.random() < .2:
            out.append({'tr': rng.random() < .4, 'len': 0})
            # an empty component in between changes nothing
    return out


def times(rng, s):
    pos, at = [], 0
    for k, n in s:
        if k == 'TNFX':
            at -= n
            pos.append((at, n))
        else:
            pos.append((at, n))
            at += n
    ts = set()
    for p, n in pos:
        for t in (p, p + n):
            ts |= {2 * t - 2, 2 * t - 1, 2 * t, 2 * t + 1, 2 * t + 2}
        if n > 2:
            ts.add(2 * (p + rng.randrange(1, n)))
    ts |= {-9, -4, 2 * at, 2 * at + 20, 2 * max([p + n for p, n in pos] + [0]) + 1}
    return sorted(ts)


def c17(c):
    sc = c.schema()
    out = c.path('timeline.json')
    c.tlc('Timeline', {'OUT': out}, cfgtext=open('/verif/spec/Timeline.cfg').read().replace('MaxN = 4', 'MaxN = 5') if c.thorough else None,
          timeout=850, heap='6g')
    with open(out) as fh:
        small = json.load(fh)
    c.cov.update(sequences_enumerated=len(small), states=c.tlc_states)
    rng = c.rng
    take = small if not c.thorough else small + rng.sample(small, min(len(small), 4000))
    plans = [dress(rng, s) for s in take] + [dress(rng, long_one(rng)) for _ in range(20000 if c.thorough else 1500)]
    cases = []
    nodes, hub, docs, stored = [], [], [], []
    for j, s in enumerate(plans):
        e = {'s': s, 'ask': times(rng, s), 'edits': edits(rng, s, rng.randrange(4)) if rng.random() < .3 else []}
        if rng.random() < .4:
            e['ref'] = rng.random() < .5
        else:
            stored.append(e)
        cases.append(e)
    for at in range(0, len(stored), 60):
        nodes, hub = [], []
        g = gen.Gen(sc, rng, 0)
        g.nleaf = 0

        def add(kind, n):
            r = g.rec(kind)
            if kind == 'SEQU':
                r['components'] = [gen.be(add('FILL', k), 4) for k in ([n] if n < 3 else [1, 0, n - 1])]
            else:
                r['length'] = gen.be(n, 4)
            nodes.append((kind, r))
            return len(nodes)
        for e in stored[at:at + 60]:
            parts = [gen.be(add(k, n), 4) for k, n in e['s']]
            r = g.rec('SEQU')
            r['components'] = parts
            nodes.append(('SEQU', r))
            e['key'] = 'c%d' % len(nodes)
            e['path'] = len(docs)
            hub.append((e['key'], len(nodes)))
        nodes.append(('ATTR', {'items': [{'k': list(k.encode()), 't': 3, 'v': gen.be(n, 4)} for k, n in hub]}))
        root = g.rec('ABIN')
        root['attributes'] = gen.be(len(nodes), 4)
        nodes.append(('ABIN', root))
        docs.append(nodes)
    fs = pd.files(c, sc, docs, [rng.choice(['little', 'big']) for _ in docs])
    for e in stored:
        e['path'] = fs[e['path']]
    judge(c, 'drv_time.py', 'TimeTrace', cases)
    c.cov.update(programs=len(cases), edited=sum(1 for e in cases if e['edits']), read_from_files=len(stored))


def judge(c, script, module, cases):
    parts = [list(range(len(cases)))[i::8] for i in range(8)]
    hs = [(ks, c.driver_start(script, {'cases': [cases[k] for k in ks]})) for ks in parts]
    flat, own = [], []
    for ks, h in hs:
        r = c.accept(c.driver_wait(h, 600), script)
        for k, x in zip(ks, r or []):
            if isinstance(x, dict):
                c.violation('raised:%s' % x['err'], 'asking a sequence raised %s %s' % (x['err'], x['msg']), {'case': cases[k]})
            else:
                flat += x
                own += [k] * len(x)
    n = 0
    for k, x, v in zip(own, flat, c.tlc_batch(module, flat, stuck=[{'what': 'questions'}])):
        n += 2 + len(x['look'])
        for b in v:
            c.violation('%s %s' % (b['what'], 'read' if 'key' in cases[k] else 'new'), 'a sequence answers its %s wrongly' % b['what'],
                        {'case': cases[k], 'observed': x, 'verdict': b})
    c.cov['disagreements_checked'] = n
    c.sample(cases[0])


CHECKS = {'C17': (pw.TV, c17)}
