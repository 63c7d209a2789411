"""Driver: sequences of the real code asked for their length, starts and the component at a time."""
import drv, avb

NEW = {'FILL': 'Filler', 'SCLP': 'SourceClip', 'TCCP': 'Timecode', 'ECCP': 'Edgecode', 'TRKR': 'TrackRef', 'PRCL': 'ParamClip',
       'CTRL': 'ControlClip', 'TKFX': 'TrackEffect', 'PVOL': 'PanVolumeEffect', 'SLCT': 'Selector', 'TNFX': 'TransitionEffect',
       'SPED': 'MotionEffect', 'MASK': 'CaptureMask', 'RSET': 'EssenceGroup', 'SEQU': 'Sequence', 'REPT': 'Repeat',
       'STRB': 'StrobeEffect', 'EQMB': 'EqualizerMultiBand', 'ASPI': 'AudioSuitePluginEffect'}


def make(f, kind, n):
    o = getattr(f.create, NEW[kind])(media_kind='picture')
    if kind == 'SEQU':
        for k in ([n] if n < 3 else [1, 0, n - 1]):
            o.components.append(make(f, 'FILL', k))
    else:
        o.length = n
    return o


def observe(seq, s, rng):
    pos, order = [], []
    held = list(seq.components)
    where = dict((id(c), j) for j, c in enumerate(held, 1))
    for i, p, c in seq.positions():
        pos.append(p)
        order.append(i + 1 if where.get(id(c)) == i + 1 else 0)
    out = {'s': [{'tr': k == 'TNFX', 'len': n} for k, n in s], 'total': seq.length, 'pos': pos, 'order': order, 'look': []}
    for t2 in rng:
        t = t2 // 2 if t2 % 2 == 0 else t2 / 2.0
        i, p = seq.nearest_index_at_time(t)
        j = i + 1
        if seq.components:
            c, p2 = seq.nearest_component_at_time(t)
            if p2 != p or c is not held[i]:
                j = 0
        out['look'].append({'t2': t2, 'j': j, 'p': int(2 * p)})
    if out['total'] != int(out['total']):
        raise ValueError('length %r' % out['total'])
    out['total'] = int(out['total'])
    return out


def edit(f, seq, s, e):
    if e['op'] == 'len':
        s[e['at']][1] = e['n']
        seq.components[e['at']].length = e['n']
    elif e['op'] == 'del':
        del s[e['at']]
        del seq.components[e['at']]
    elif e['op'] == 'ins':
        s.insert(e['at'], [e['kind'], e['n']])
        seq.components.insert(e['at'], make(f, e['kind'], e['n']))
    elif e['op'] == 'swap':
        a, b = e['at'], e['to']
        s[a], s[b] = s[b], s[a]
        x, y = seq.components[a], seq.components[b]
        seq.components[a] = y
        seq.components[b] = x


def case(f, c):
    s = [list(x) for x in c['s']]
    if 'key' in c:
        seq = f.content.attributes[c['key']]
    else:
        seq = f.create.Sequence(media_kind='picture')
        if c['ref']:
            seq.components = avb.core.AVBRefList.__new__(avb.core.AVBRefList, root=f, parent=seq)
        for k, n in s:
            seq.components.append(make(f, k, n))
    out = [observe(seq, s, c['ask'])]
    for e in c['edits']:
        edit(f, seq, s, e)
        out.append(observe(seq, s, c['ask']))
    return out


def body(job, work):
    res = []
    opened = {}
    for c in job['cases']:
        p = c.get('path', '')
        try:
            if p not in opened:
                opened[p] = avb.open(p) if p else avb.open()
            res.append(case(opened[p], c))
        except Exception as e:
            res.append(drv.err(e))
    for f in opened.values():
        f.close()
    return res


drv.run(body)
