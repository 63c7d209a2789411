"""Driver: mob ids of the real code set, converted and copied through every view."""
import copy, os, pickle, random, uuid
import drv, avb
from avb.mobid import MobID

SIZES = {'length': 1, 'instanceHigh': 1, 'instanceMid': 1, 'instanceLow': 1, 'Data1': 4, 'Data2': 2, 'Data3': 2, 'int': 32}


def num(v):
    n = 0
    for x in v:
        n = n * 256 + x
    return n


def be(n, size):
    return list(int(n).to_bytes(size, 'big'))


def text(v, style):
    """the digits as text, in one of the spellings in use"""
    h = ''.join('%02x' % x for x in v)
    if style == 'plain':
        return h
    if style == 'upper':
        h = h.upper()
    parts = [h[0:8], h[8:16], h[16:24], h[24:26] + h[26:32], h[32:40], h[40:48], h[48:56], h[56:64]]
    if style == 'uuid':
        return 'urn:smpte:umid:' + '.'.join(parts[:4]) + '.' + '-'.join(parts[4:])
    if style == 'bare':
        return '.'.join(parts)
    return 'urn:smpte:umid:' + '.'.join(parts)


def digits(s):
    if not s.startswith('urn:smpte:umid:'):
        raise ValueError('text %r' % s)
    parts = s[15:].split('.')
    if [len(p) for p in parts] != [8] * 8 or s != s.lower():
        raise ValueError('text %r' % s)
    return list(bytes.fromhex(''.join(parts)))


def to_dict(v, uuid_parts=True):
    return {'SMPTELabel': v[:12], 'length': v[12], 'instanceHigh': v[13], 'instanceMid': v[14], 'instanceLow': v[15],
            'material': {'Data1': num(v[16:20][::-1]), 'Data2': num(v[20:22][::-1]), 'Data3': num(v[22:24][::-1]), 'Data4': v[24:]}}


def from_dict(d):
    m = d['material']
    return list(d['SMPTELabel']) + [d['length'], d['instanceHigh'], d['instanceMid'], d['instanceLow']] + \
        be(m['Data1'], 4)[::-1] + be(m['Data2'], 2)[::-1] + be(m['Data3'], 2)[::-1] + list(m['Data4'])


def show(m):
    out = {n: be(getattr(m, n), k) for n, k in SIZES.items()}
    for n in ('SMPTELabel', 'Data4', 'bytes_le'):
        out[n] = list(bytearray(getattr(m, n)))
    out['material'] = list(m.material.bytes)
    out['urn'] = digits(m.urn)
    if str(m) != m.urn or int(m) != m.int or repr(m) != m.urn:
        raise ValueError('text or number differ: %s %s' % (m, m.urn))
    out['dict'] = from_dict(m.to_dict())
    return out


def dup(m, how, work):
    if how == 'copy':
        return copy.copy(m)
    if how == 'deepcopy':
        return copy.deepcopy(m)
    if how == 'pickle':
        return pickle.loads(pickle.dumps(m, 2))
    if how == 'bytes':
        return MobID(bytes_le=m.bytes_le)
    if how == 'int':
        return MobID(int=m.int)
    if how == 'urn':
        return MobID(m.urn)
    if how == 'str':
        x = MobID()
        x.urn = str(m)
        return x
    if how == 'dict':
        x = MobID()
        x.from_dict(m.to_dict())
        return x
    if how == 'fields':
        x = MobID()
        for n in ('SMPTELabel', 'length', 'instanceHigh', 'instanceMid', 'instanceLow', 'material'):
            setattr(x, n, getattr(m, n))
        return x
    if how == 'data':
        x = MobID()
        for n in ('Data4', 'Data3', 'Data2', 'Data1', 'instanceLow', 'instanceMid', 'instanceHigh', 'length', 'SMPTELabel'):
            setattr(x, n, getattr(m, n))
        return x
    f = avb.open()
    c = f.create.SourceClip(media_kind='picture')
    c.length = c.start_time = c.track_id = 0
    c.mob_id = m
    if how == 'clip':
        g = avb.open()
        return c.copy(g).mob_id
    f.content.attributes = f.create.Attributes()
    f.content.attributes['c'] = c
    p = os.path.join(work, 'ids.avb')
    f.write(p)
    with avb.open(p) as g:
        return g.content.attributes['c'].mob_id


def apply(regs, e, work):
    r = e['r'] - 1
    op = e['op']
    if op == 'set':
        n = e['n']
        v = num(e['v']) if n in SIZES else bytearray(e['v']) if n == 'bytes_le' else list(e['v'])
        if n == 'bytes_le' and e['part']:
            for j, x in enumerate(v):
                regs[r].bytes_le[j] = x
        else:
            setattr(regs[r], n, v)
    elif op == 'material':
        regs[r].material = uuid.UUID(bytes=bytes(e['v']))
    elif op == 'urn':
        regs[r].urn = text(e['v'], e['style'])
    elif op == 'newurn':
        regs[r] = MobID(text(e['v'], e['style']))
    elif op == 'newbytes':
        regs[r] = MobID(bytes_le=bytes(e['v']))
    elif op == 'newint':
        regs[r] = MobID(int=num(e['v']))
    elif op == 'dict':
        regs[r].from_dict(to_dict(e['v']))
    elif op == 'blank':
        regs[r] = MobID()
    elif op == 'unique':
        regs[r] = MobID.new()
    elif op == 'copy':
        regs[r] = dup(regs[e['from'] - 1], e['how'], work)


def observe(regs):
    out = {'ids': [show(m) for m in regs], 'cmp': []}
    for a in regs:
        row = []
        for b in regs:
            row.append({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b,
                        'hash': hash(a) == hash(b), 'key': b in {a: 1}})
        out['cmp'].append(row)
    return out


def body(job, work):
    res = []
    for c in job['cases']:
        random.seed(7)
        regs = [MobID() for _ in range(3)]
        obs = []
        try:
            for e in c['ops']:
                apply(regs, e, work)
                obs.append(observe(regs))
            res.append({'obs': obs})
        except Exception as x:
            res.append(dict(drv.err(x), at=len(obs)))
    seen = set()
    for k in range(job['fresh']):
        random.seed(k % 3)
        m = MobID.new()
        seen.add(m.int)
    # and those of new mobs
    f = avb.open()
    mobs = [f.create.Composition() for _ in range(200)]
    for m in mobs:
        seen.add(m.mob_id.int)
    f.close()
    return {'res': res, 'distinct': len(seen), 'generated': job['fresh'] + 200}


drv.run(body)
