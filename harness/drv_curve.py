"""Driver: parameter clips of the real code evaluated and integrated."""
import math, os
import drv, avb

KIND = {'constant': 2, 'linear': 3, 'bezier': 5, 'cubic': 6, 'unknown': 9}
FIX = 65536.0


def point(f, p):
    cp = f.create.ParamControlPoint()
    fill(f, cp, p)
    return cp


def fill(f, cp, p):
    cp.offset = list(p['offset'])
    cp.timescale = p['scale']
    cp.value = p['value']
    cp.pp = []
    for code, ty, v in p['pp']:
        x = f.create.ParamControlPointProperty()
        x.code, x.type, x.value = code, ty, v
        cp.pp.append(x)


def build(f, s):
    c = f.create.ParamClip(media_kind='picture')
    c.length = 100
    c.interp_kind = KIND[s['kind']]
    c.value_type = s['vtype']
    c.extrap_kind = 1
    c.fields = 0
    c.control_points = [point(f, p) for p in s['real']]
    return c


def edit(f, c, e, s):
    """the clip turned into the next step, in place"""
    if e['op'] == 'set':
        fill(f, c.control_points[e['at']], s['real'][e['at']])
    elif e['op'] == 'ins':
        c.control_points.insert(e['at'], point(f, s['real'][e['at']]))
    elif e['op'] == 'del':
        del c.control_points[e['at']]
    elif e['op'] == 'kind':
        c.interp_kind = KIND[s['kind']]


def fixed(x):
    x = float(x) * FIX
    if x != x or abs(x) > 2e9:
        return 2000000000
    return int(round(x))


def answers(c, ask):
    out = []
    for q in ask:
        t = c.control_points[q['key'] - 1].time if 'key' in q else q['n'] / float(q['d'])
        if 'side' in q:
            t = math.nextafter(t, q['side'] * math.inf)
        try:
            v = c.value_at(t)
            out.append(fixed(v) if type(v) is float else 'a %s' % type(v).__name__)
        except Exception as e:
            out.append('%s %s' % (type(e).__name__, e))
    return out


def rows(it):
    return [{'t2': int(2 * t) if 2 * t == int(2 * t) else 999999, 'v': fixed(v)} for t, v in it]


def table(c, s):
    first = c.control_points[0].time
    center = int(first)
    w = s['wide']
    w = [min(w[0], center), max(w[1], center)]
    r = {'center': center, 'base': s['base'] * 65536, 'lo': 10 * w[0] - 6}
    r['v'] = [fixed(c.value_at(x / 10.0)) for x in range(r['lo'], 10 * w[1] + 1)]
    r['wide'] = {'start': w[0], 'end': w[1], 'rows': rows(c.integrate(w[0], w[1]))}
    r['part'] = []
    for a, b in s['parts']:
        a, b = max(a, w[0]), min(b, w[1])
        if a <= b:
            r['part'].append({'start': a, 'end': b, 'rows': rows(c.integrate(a, b))})
    last = int(c.control_points[-1].time)
    if w[0] <= last <= w[1]:
        r['part'].append({'start': w[0], 'end': last, 'rows': rows(c.integrate(w[0]))})
    try:
        list(c.integrate(w[1] + 1, w[1]))
        r['reversed'] = 'accepted'
    except ValueError:
        pass
    return r


def exact(f, e):
    """key frames with any times and values: [times, values, answers as text]"""
    c = build(f, e)
    out = {'time': [], 'got': [], 'near': [], 'value': []}
    for p in c.control_points:
        out['time'].append(float(p.time).hex())
        out['value'].append(float(p.value).hex())
        out['got'].append(float(c.value_at(p.time)).hex())
        out['near'].append(c.nearest_index(p.time))
    return out


def step(f, c, s):
    r = {'got': answers(c, s['ask'])}
    if s['pts'] and s['kind'] != 'unknown':
        try:
            r['table'] = table(c, s)
        except Exception as e:
            r['tableerr'] = '%s %s' % (type(e).__name__, e)
    if not s['pts']:
        for n, fn in (('value', lambda: c.value_at(1)), ('integral', lambda: list(c.integrate(0, 3))), ('index', lambda: c.nearest_index(0))):
            try:
                fn()
                r['empty'] = n
            except Exception:
                pass
    return r


def case(f, e, work, n):
    c = build(f, e['steps'][0])
    g = None
    if e['save']:
        h = avb.open()
        c = build(h, e['steps'][0])
        h.content.attributes = h.create.Attributes()
        h.content.attributes['c'] = c
        p = os.path.join(work, 'c%d.avb' % n)
        h.write(p)
        h.close()
        g = f = avb.open(p)
        c = f.content.attributes['c']
    out = [step(f, c, e['steps'][0])]
    for s in e['steps'][1:]:
        edit(f, c, s['edit'], s)
        out.append(step(f, c, s))
    if g:
        g.close()
        os.unlink(p)
    return out


def body(job, work):
    res = []
    f = avb.open()
    for n, e in enumerate(job['cases']):
        try:
            res.append(exact(f, e) if 'exact' in e else case(f, e, work, n))
        except Exception as x:
            res.append(drv.err(x))
    f.close()
    return res


drv.run(body)
