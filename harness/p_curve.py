"""Parameter curves (C18) against AvbCurve."""
from fractions import Fraction
import p_wire as pw


def spell(rng, t):
    """a rational time of t twentieths, as numerator, denominator and scale"""
    k = rng.choice([1, 1, 1, 2, 3, 5])
    if t % 20 == 0 and rng.random() < .5:
        return [t // 20 * k, k], 1
    if t % 2 == 0 and rng.random() < .4:
        return [t // 2, 10 * k], k
    if rng.random() < .1:
        return [-t, -20], 1
    return [t * k, 20 * k], 1


def real(rng, p, vtype):
    off, sc = spell(rng, p['t'])
    pp = []
    for code, n, unit in ((5, p['it'], 20), (6, p['iv'], 4), (7, p['ot'], 20), (8, p['ov'], 4)):
        if n or rng.random() < .5:
            pp.append([code, 1, n // unit] if n % unit == 0 and rng.random() < .3 else [code, 2, n / float(unit)])
    if rng.random() < .5:
        pp.append([9, 1, rng.randrange(3)])
    if rng.random() < .2:
        pp.append([rng.choice([1, 2, 40]), 1, 77])
    rng.shuffle(pp)
    if p.get('base') is not None:
        pp.insert(rng.randrange(len(pp) + 1), [14, 1, p['base']])
    return {'offset': off, 'scale': sc, 'value': p['v'] // 4 if vtype == 1 else p['v'] / 4.0, 'pp': pp}


def pt(rng, t, v, vtype, handles, first):
    if vtype == 1:
        v = v // 4 * 4
    far = rng.choice([1, 1, 3])

    def x(s):
        k = rng.random()
        return 0 if k < .2 else s * rng.randrange(0, 80) * far if k < .9 else -s * rng.randrange(0, 60)
    h = {'it': x(-1), 'iv': rng.randrange(-60, 61), 'ot': x(1), 'ov': rng.randrange(-60, 61)} if handles else \
        {'it': 0, 'iv': 0, 'ot': 0, 'ov': 0}
    p = dict(t=t, v=v, **h)
    # the base frame is that of the first key frame; others may carry one too
    if rng.random() < (.5 if first else .2):
        p['base'] = rng.choice([0, 1, 7, -3, 250])
    return p


def clip(rng):
    kind = rng.choice(['constant', 'linear', 'bezier', 'bezier', 'bezier', 'cubic', 'cubic', 'cubic', 'unknown'])
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 9])
    odd = kind == 'constant' or rng.random() < .4
    whole = not odd and rng.random() < .5
    vtype = rng.choice([1, 2, 2])
    t = rng.randrange(-60, 60)
    pts = []
    for j in range(n):
        # values of a jump must not be asked for exactly where it is
        tt = t * 20 // 20 if not whole else t // 20 * 20
        if odd:
            tt |= 1
        if pts and tt < pts[-1]['t']:
            tt = pts[-1]['t']
        pts.append(pt(rng, tt, rng.choice([0, rng.randrange(-80, 81), pts[-1]['v'] if pts else 4]), vtype, kind == 'bezier' or rng.random() < .2, j == 0))
        t = tt + (rng.choice([0, 2]) if odd and rng.random() < .25 else rng.choice([20, 40, rng.randrange(2, 41), rng.randrange(2, 160)]))
    return {'kind': kind, 'pts': pts, 'vtype': vtype, 'odd': odd, 'whole': whole}


def finish(rng, s):
    pts = s['pts']
    s['real'] = [real(rng, p, s['vtype']) for p in pts]
    s['base'] = (pts[0].get('base') or 0) if pts else 0
    if pts:
        a, z = int(pts[0]['t'] / 20.0), int(pts[-1]['t'] / 20.0)
        s['wide'] = [a - rng.choice([0, 0, 1, 3]), z + rng.choice([0, 0, 1, 4])]
        r = range(s['wide'][0], s['wide'][1] + 1)
        s['parts'] = [sorted([rng.choice(r), rng.choice(r)]) for _ in range(3)]
    return s


def steps(rng):
    s = clip(rng)
    out = [finish(rng, s)]
    for _ in range(rng.choice([0, 0, 1, 2])):
        s = dict(s, pts=[dict(p) for p in s['pts']], real=list(s['real']))
        n = len(s['pts'])
        k = rng.random()
        if n and k < .5:
            at = rng.randrange(n)
            s['pts'][at] = pt(rng, s['pts'][at]['t'], rng.randrange(-80, 81), s['vtype'], s['kind'] == 'bezier', at == 0)
            s['real'][at] = real(rng, s['pts'][at], s['vtype'])
            s['edit'] = {'op': 'set', 'at': at}
        elif n and k < .65:
            at = rng.randrange(n)
            del s['pts'][at], s['real'][at]
            s['edit'] = {'op': 'del', 'at': at}
        elif k < .85 or s['kind'] == 'unknown':
            at = rng.randrange(n + 1)
            t = s['pts'][at - 1]['t'] if at else s['pts'][0]['t'] - 20 if n else 41
            if at == n and n:
                t += rng.choice([20, 42])
            elif 0 < at < n:
                t = (t + s['pts'][at]['t']) // 2
                t = max(t | 1 if s['odd'] else t, s['pts'][at - 1]['t'])
                t = min(t, s['pts'][at]['t'])
            p = pt(rng, t, rng.randrange(-80, 81), s['vtype'], s['kind'] == 'bezier', at == 0)
            s['pts'].insert(at, p)
            s['real'].insert(at, real(rng, p, s['vtype']))
            s['edit'] = {'op': 'ins', 'at': at}
        else:
            s['kind'] = rng.choice(['linear', 'bezier', 'cubic'])
            s['edit'] = {'op': 'kind'}
        r = s['real']
        s = finish(rng, s)
        s['real'] = r
        out.append(s)
    return out


def odd_times(rng):
    n = rng.randrange(1, 7)
    fr = sorted([Fraction(rng.randrange(-50, 50), rng.choice([1, 3, 7, 13, 24])) for _ in range(n)])
    if n > 2 and rng.random() < .4:
        fr[1] = fr[0]
    pts = []
    for j, x in enumerate(fr):
        k = k if j and fr[j - 1] == x else rng.choice([1, 2, 25])
        vt = rng.choice([0.1, -1 / 3.0, 1e300, -1e-300, 123456789.123, 0.0, float(rng.randrange(-10 ** 9, 10 ** 9))])
        pts.append({'offset': [x.numerator, x.denominator * k], 'scale': k, 'value': vt, 'pp': []})
    return {'exact': True, 'kind': rng.choice(['constant', 'linear', 'bezier', 'cubic', 'unknown']), 'vtype': 2, 'real': pts,
            'times': [[x.numerator, x.denominator] for x in fr]}


def c18(c):
    rng = c.rng
    n = 50000 if c.thorough else 2500
    cases = [{'steps': steps(rng), 'save': rng.random() < .3} for _ in range(n)]
    flat = [s for e in cases for s in e['steps']]
    plan = c.tlc_batch('CurvePlan', [{'kind': s['kind'], 'pts': [{k: p[k] for k in ('t', 'v', 'it', 'iv', 'ot', 'ov')} for p in s['pts']]}
                                     for s in flat])
    for s, q in zip(flat, plan):
        s['want'] = q
        s['ask'] = [{k: x[k] for k in ('key', 'side', 'n', 'd') if k in x} for x in q]
    cases += [odd_times(rng) for _ in range(n // 5)]
    def slim(e):
        if 'exact' in e:
            return e
        return dict(e, steps=[{k: v for k, v in s.items() if k != 'want'} for s in e['steps']])
    parts = [list(range(len(cases)))[i::8] for i in range(8)]
    hs = [(ks, c.driver_start('drv_curve.py', {'cases': [slim(cases[k]) for k in ks]})) for ks in parts]
    tables, own = [], []
    asked = 0
    worst = 0
    for ks, h in hs:
        r = c.accept(c.driver_wait(h, 700), 'drv_curve.py')
        for k, x in zip(ks, r or []):
            e = cases[k]
            if isinstance(x, dict) and 'err' in x:
                c.violation('raised:%s' % x['err'], 'a parameter clip raised %s %s' % (x['err'], x['msg']), {'case': e})
            elif 'exact' in e:
                ts = [float.fromhex(t) for t in x['time']]
                for j, (a, b) in enumerate(e['times']):
                    asked += 1
                    if abs(ts[j] - a / b) > 1e-12 * max(1, abs(a / b)):
                        c.violation('time', 'the time of a key frame is wrong', {'case': e, 'got': x, 'at': j})
                    elif x['got'][j] not in [v for v, t in zip(x['value'], ts) if t == ts[j]] or not 0 <= x['near'][j] < len(ts) or ts[x['near'][j]] != ts[j] \
                            or float.fromhex(x['value'][j]) != e['real'][j]['value']:
                        c.violation('key frame %s' % e['kind'], 'a clip has another value at a key frame than the key frame', {'case': e, 'got': x, 'at': j})
            else:
                for s, y in zip(e['steps'], x):
                    for q, g in zip(s['want'], y['got']):
                        asked += 1
                        if isinstance(g, int) and any(abs(g - w) <= q['tol'] for w in q['want']):
                            if q['tol'] > 1:
                                worst = max(worst, min(abs(g - w) for w in q['want']))
                            continue
                        what = 'beside a key frame' if 'side' in q else 'at a key frame' if 'key' in q else 'outside the key frames' if q['d'] == 20 else 'between key frames'
                        c.violation('%s %s' % (s['kind'], what), 'a %s curve is wrong %s' % (s['kind'], what), {'case': slim(e), 'question': q, 'got': g, 'step': s['pts']})
                        break
                    if 'empty' in y:
                        c.violation('empty', 'a clip without key frames has a value', {'case': slim(e), 'got': y})
                    if 'tableerr' in y:
                        c.violation('integrate raised', 'integrating raised ' + y['tableerr'], {'case': slim(e)})
                    elif 'table' in y:
                        if 'reversed' in y['table']:
                            c.violation('reversed', 'a range that ends before it starts was integrated', {'case': slim(e)})
                        tables.append(y['table'])
                        own.append((k, s))
    for (k, s), t, v in zip(own, tables, c.tlc_batch('CurveTrace', tables, stuck=[{'what': 'table'}])):
        for b in v:
            c.violation('integral %s %s' % (s['kind'], b['what']), 'integrating a %s curve: %s wrong' % (s['kind'], b['what']),
                        {'case': slim(cases[k]), 'table': t, 'verdict': b})
    c.cov.update(programs=len(cases), disagreements_checked=asked + len(tables), integrals=len(tables), worst_difference_65536ths=worst,
                 kinds=sorted(set(s['kind'] for s in flat)), saved_and_reopened=sum(1 for e in cases if e.get('save')))
    c.sample(slim(cases[0]))


CHECKS = {'C18': (pw.TV, c18)}
