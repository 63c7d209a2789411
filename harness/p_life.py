"""The life of objects in memory (AvbLife), replayed on the real code: part of C07, C08 and C12."""
import os, re
import gen, base
import p_doc as pd

KINDS = ['ATTR', 'SCLP', 'SEQU', 'PRCL', 'CMPO']
QUIET = ['save', 'over', 'fail', 'gc', 'look']


def node(c, sc, cid, b, x):
    g = gen.Gen(sc, c.rng, 0)
    g.nleaf = 0
    x = gen.be(x, 4)
    if cid == 'ATTR':
        return {'items': [{'k': [118], 't': 1, 'v': gen.be(0, 4)}, {'k': [98], 't': 4, 'v': [b]}, {'k': [120], 't': 3, 'v': x}]}
    while True:
        r = g.rec(cid)
        if cid == 'CMPO' and (not r['tracks'] or 'index' not in r['tracks'][0]):
            continue
        if cid == 'PRCL' and not r['control_points']:
            continue
        break
    if cid == 'SEQU':
        r['components'] = [x] if any(x) else []
        r['media_kind_id'] = gen.be(0, 2)
        r['name'] = [48 + b]
        r['attributes'] = gen.be(0, 4)
    else:
        r['attributes'] = x
        r['length'] = gen.be(0, 4)
    if cid == 'SCLP':
        r['mob_id'] = list(r['mob_id'])
        r['mob_id'][13] = b
    elif cid == 'CMPO':
        r['tracks'][0]['index'] = gen.be(b, 2)
        r['mob_type_id'] = [2]
    elif cid == 'PRCL':
        r['control_points'][0]['timescale'] = gen.be(b, 4)
    return r


def start(c, sc, kinds):
    nodes = [(kinds[0], node(c, sc, kinds[0], 0, 0)), (kinds[1], node(c, sc, kinds[1], 0, 1)), (kinds[2], node(c, sc, kinds[2], 1, 1))]
    nodes.append(('ATTR', {'items': [{'k': [97], 't': 3, 'v': gen.be(2, 4)}, {'k': [98], 't': 3, 'v': gen.be(3, 4)}]}))
    g = gen.Gen(sc, c.rng, 0)
    g.nleaf = 0
    root = g.rec('ABIN')
    root['attributes'] = gen.be(4, 4)
    nodes.append(('ABIN', root))
    return nodes


def acts(c):
    """every transition up to a depth, by the actions that lead to it"""
    cfg = open(os.path.join(base.SPEC, 'Life.cfg')).read()
    if c.thorough:
        cfg = cfg.replace('Depth = 4', 'Depth = 5')
    text = c.tlc('Life', env={'PLAN': '1'}, cfgtext=cfg, timeout=800, heap='4g')
    out = []
    for l in re.findall(r'<<\s*"PLAN",\s*<<(.*?)>>\s*>>', text, re.S):
        out.append([act(w) for w in re.findall(r'"([^"]*)"', l)])
    return out


FAULTS = ['set-unmarked', 'ref-unmarked', 'number-again', 'save-disk', 'save-forgets']


def model(c):
    """the model tells each planted mistake of the algorithm from the right one"""
    cfg = open(os.path.join(base.SPEC, 'Life.cfg')).read()
    hs = [(f, c.tlc_start('Life', env={'PLAN': '0'}, cfgtext=cfg.replace('"none"', '"%s"' % f))) for f in FAULTS]
    for f, h in hs:
        text = c.tlc_wait(h, ok_codes=(12, 13))
        if 'violated' not in text:
            raise base.Machinery('the model does not see the fault %s' % f)
    c.cov['faults_of_the_algorithm_told'] = len(FAULTS)


def act(w):
    op, i, k = w.split(':')
    return {'op': op, 'i': int(i), 'k': k}


WISHES = [act('%s:%d:%s' % (o, i, k)) for i in (1, 2) for o, k in
          [('get', 'a'), ('get', 'b'), ('get', 'ax'), ('get', 'bx'), ('step', '0'), ('step', '0'), ('drop', '0'), ('set', '0'), ('set', '0'), ('nest', '0'),
           ('nest', '0'), ('ref', '0'), ('ref', '1'), ('ref', '2'), ('ref', '1'), ('ref', '2'), ('new', '0'), ('copy', '0'), ('hub', 'a'), ('hub', 'b')]] \
    + [act('%s:0:0' % o) for o in QUIET + ['reopen', 'gc', 'look', 'look']]


def life(c, prefixes, quick, deep, walks):
    sc = c.schema()
    plans = acts(c)
    total = len(plans)
    want = deep if c.thorough else quick
    # every transition of the last step counts; a sample when there are too many
    plans = c.rng.sample(plans, min(want, total))
    for p in plans:
        for _ in range(c.rng.randrange(3)):
            p.insert(c.rng.randrange(len(p) + 1), act('%s:0:0' % c.rng.choice(QUIET)))
        p.append(act(c.rng.choice(['look:0:0', 'save:0:0', 'reopen:0:0'])))
        p.append(act('look:0:0'))
    wishes = [{'wish': [c.rng.choice(WISHES) for _ in range(70)]} for _ in range(walks * (8 if c.thorough else 1))]
    plans += c.tlc_batch('LifeTrace', wishes)
    docs, kinds = [], []
    for i in range(24):
        kinds.append([c.rng.choice(KINDS) for _ in range(3)])
        docs.append(start(c, sc, kinds[-1]))
    fs = pd.files(c, sc, docs, [c.rng.choice(['little', 'big']) for _ in docs])
    cases = []
    for p in plans:
        made = c.rng.sample(KINDS, len(KINDS))
        cases.append({'path': c.rng.choice(fs), 'made': made, 'acts': p})
    hs = []
    for i in range(8):
        ks = list(range(len(cases)))[i::8]
        hs.append((ks, c.driver_start('drv_life.py', {'cases': [cases[k] for k in ks]})))
    got = [None] * len(cases)
    for ks, h in hs:
        for k, x in zip(ks, c.accept(c.driver_wait(h, 700), 'drv_life.py') or []):
            got[k] = x
    live = [k for k, x in enumerate(got) if x]
    for k in live:
        if 'got' not in got[k]:
            raise base.Machinery('drv_life: %s' % got[k])
    res = c.tlc_batch('LifeTrace', [{'acts': cases[k]['acts'][:len(got[k]['got'])], 'got': got[k]['got'], 'alive': got[k]['alive']} for k in live],
                      stuck=[{'at': 1, 'what': 'raised: what was observed fits no state'}])
    for k, bad in zip(live, res):
        for b in bad:
            if b['what'].split(':')[0] not in prefixes + ('raised',):
                continue
            c.violation('life %s' % b['what'], 'life of objects: %s' % b['what'],
                        {'acts': cases[k]['acts'], 'at': b['at'], 'got': got[k]['got'][:b['at']], 'alive': got[k]['alive']})
    c.cov['life_of_objects'] = {'transitions': total, 'replayed': len(plans), 'actions': sum(len(p) for p in plans)}
    c.cov['traces'] = c.cov.get('traces', 0) + len(plans)
    c.cov['programs'] = c.cov.get('programs', 0) + len(plans)
    c.cov['disagreements_checked'] = c.cov.get('disagreements_checked', 0) + sum(len(p) for p in plans)
