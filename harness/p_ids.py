"""Mob ids (C19) against AvbMobId."""
import p_wire as pw

SIZE = {'SMPTELabel': 12, 'length': 1, 'instanceHigh': 1, 'instanceMid': 1, 'instanceLow': 1, 'Data1': 4, 'Data2': 2, 'Data3': 2, 'Data4': 8,
        'int': 32, 'bytes_le': 32}
HOW = ['copy', 'deepcopy', 'pickle', 'bytes', 'int', 'urn', 'str', 'dict', 'fields', 'data', 'clip', 'file']
OLD = [6, 14, 43, 52, 127, 127]


def byte(rng):
    return rng.choice([0, 0, 1, 127, 128, 255, rng.randrange(256)])


def some(rng, n):
    k = rng.random()
    if k < .1:
        return [0] * n
    if k < .2:
        return [255] * n
    if k < .5:
        return [byte(rng) for _ in range(n)]
    return [rng.randrange(256) for _ in range(n)]


def whole(rng):
    b = some(rng, 32)
    k = rng.random()
    if k < .45:
        b[11] = 0
        at = rng.choice([16, 24])
        b[at:at + 6] = OLD
        if rng.random() < .3:
            b[at + rng.randrange(6)] ^= 1 << rng.randrange(8)
        if rng.random() < .2:
            b[11] = rng.choice([1, 32, 128])
    elif k < .55:
        b[11] = 0
        # the object identifier as the first half would be stored
        b[16:24] = [52, 43, 14, 6, 127, 127, rng.randrange(256), rng.randrange(256)]
        if rng.random() < .5:
            b[24:30] = OLD
    return b


def ops(rng, n):
    out = []
    for _ in range(n):
        r = rng.randrange(1, 4)
        k = rng.random()
        if k < .4:
            f = rng.choice(sorted(SIZE))
            e = {'op': 'set', 'n': f, 'v': whole(rng) if SIZE[f] == 32 else OLD + some(rng, 2) if f == 'Data4' and rng.random() < .5 else
                 [6, 14, 43, 52] if f == 'Data1' and rng.random() < .3 else [127, 127] if f == 'Data2' and rng.random() < .3 else some(rng, SIZE[f]),
                 'part': rng.random() < .3}
        elif k < .48:
            e = {'op': 'material', 'v': rng.choice([whole(rng)[16:], OLD + some(rng, 10), some(rng, 8) + OLD + some(rng, 2)])}
        elif k < .6:
            e = {'op': rng.choice(['urn', 'newurn']), 'v': whole(rng), 'style': rng.choice(['urn', 'upper', 'plain', 'uuid', 'bare'])}
        elif k < .68:
            e = {'op': rng.choice(['newbytes', 'newint', 'dict', 'newbytes']), 'v': whole(rng)}
        elif k < .72:
            e = {'op': rng.choice(['unique', 'unique', 'blank'])}
        else:
            e = {'op': 'copy', 'from': rng.randrange(1, 4), 'how': rng.choice(HOW)}
        e['r'] = r
        out.append(e)
    return out


def c19(c):
    rng = c.rng
    c.tlc('MobId')
    cases = [{'ops': ops(rng, rng.choice([3, 6, 12]))} for _ in range(12000 if c.thorough else 1200)]
    odd = some(rng, 32)
    odd[11:12], odd[16:22], odd[24] = [0], [52, 43, 14, 6, 127, 127], 1
    cases.append({'ops': [{'op': 'newbytes', 'r': 1, 'v': odd}, {'op': 'copy', 'r': 2, 'from': 1, 'how': 'urn'}]})
    for how in HOW:
        # a copy changed afterwards, and an original changed after the copy
        for r in (1, 2):
            for f in sorted(SIZE):
                cases.append({'ops': [{'op': 'newbytes', 'r': 1, 'v': whole(rng)}, {'op': 'copy', 'r': 2, 'from': 1, 'how': how},
                                      {'op': 'set', 'r': r, 'n': f, 'v': some(rng, SIZE[f]), 'part': True}]})
    parts = [list(range(len(cases)))[i::8] for i in range(8)]
    fresh = 20000 if c.thorough else 2000
    hs = [(ks, c.driver_start('drv_ids.py', {'cases': [cases[k] for k in ks], 'fresh': fresh})) for ks in parts]
    live, obs = [], []
    for ks, h in hs:
        r = c.accept(c.driver_wait(h, 600), 'drv_ids.py')
        if not r:
            continue
        if r['distinct'] != r['generated']:
            c.violation('not unique', 'generated mob ids are not distinct', r['distinct'])
        for k, x in zip(ks, r['res']):
            if 'err' in x:
                c.violation('raised:%s %s' % (x['err'], cases[k]['ops'][x['at']]['op']), 'a mob id raised %s %s' % (x['err'], x['msg']), {'case': cases[k], 'at': x['at']})
            else:
                live.append(k)
                obs.append(x)
    for k, x, v in zip(live, obs, c.tlc_batch('IdTrace', [{'ops': cases[k]['ops'], 'obs': x['obs']} for k, x in zip(live, obs)],
                                         stuck=[{'at': 1, 'what': 'what was observed fits no state'}])):
        for b in v:
            e = cases[k]['ops'][b['at'] - 1]
            name = e['op'] + ' ' + e.get('n', e.get('how', e.get('style', '')))
            if b['what'] == 'text of an ambiguous id':
                c.violation('ambiguous-urn', 'the text of an id whose material number begins 060e2b34-7f7f is read back as another id', {'case': cases[k], 'verdict': b})
            else:
                c.violation('%s %s' % (b['what'], name), 'mob ids: %s wrong after %s' % (b['what'], name), {'case': cases[k], 'verdict': b, 'observed': x['obs'][b['at'] - 1]})
    c.cov.update(programs=len(cases), disagreements_checked=sum(len(cases[k]['ops']) for k in live), generated=8 * (fresh + 200), copies=len(HOW),
                 states=c.tlc_states)
    c.sample(cases[0])


CHECKS = {'C19': (pw.TV, c19)}
