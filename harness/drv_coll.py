"""Driver: operations on reference lists and attribute maps of the real code.
Numbers stand for elements: 0 None, 1..3 objects of the document; in maps also 4 an integer,
5 text, 6 a byte array."""
import collections, gc, os, sys
import drv, avb

KEYS = [None, u'a', u'bb', u'c\u00e9']


class World(object):
    def __init__(self, f, leaves):
        self.f, self.leaf = f, leaves

    def val(self, n):
        return None if n == 0 else self.leaf[n] if n < 4 else {4: -7, 5: u'text \u00e9', 6: bytearray(b'\x00\xff\x07')}[n]

    def num(self, v):
        if v is None:
            return 0
        if isinstance(v, bool):
            return 99
        if isinstance(v, int):
            return 4 if v == -7 else 98
        if isinstance(v, str):
            return 5 if v == u'text \u00e9' else 97
        if isinstance(v, (bytes, bytearray)):
            return 6 if type(v) is bytearray and v == b'\x00\xff\x07' else 96
        for n, o in self.leaf.items():
            if o is v:
                return n
        return 90

    def vals(self, ns):
        return [self.val(n) for n in ns]

    def nums(self, vs):
        return [self.num(v) for v in vs]


def opt(x):
    return x[0] if x else None


def res(t, v=()):
    return {'t': t, 'v': list(v)}


class Odd(Exception):
    pass


def key_of(w, m):
    return lambda o: (w.num(o) * 7) % m


def gen_of(xs, fail=False):
    for x in xs:
        yield x
    if fail:
        1 // 0


def loop(w, l, e):
    out = []
    for v in (reversed(l) if e['back'] else l):
        out.append(w.num(v))
        if len(out) <= len(e['body']):
            try:
                list_op(w, l, e['body'][len(out) - 1])
            except (Odd, MemoryError):
                raise
            except Exception:
                pass
        if len(out) > 4000:
            return res('endless')
    return res('list', out)


def loop_map(w, m, e):
    out, n = [], 0
    it = m.keys() if e['of'] == 'keys' else m.values() if e['of'] == 'values' else m.items()
    for v in it:
        if e['of'] != 'values':
            out.append(KEYS.index(v[0] if e['of'] == 'items' else v))
        if e['of'] != 'keys':
            out.append(w.num(v[1] if e['of'] == 'items' else v))
        if n < len(e['body']):
            b = e['body'][n]
            if KEYS[b['k']] in m:
                m[KEYS[b['k']]] = w.val(b['x'])
        n += 1
    return res('list', out)


def list_op(w, l, e):
    op = e['op']
    if op == 'loop':
        return loop(w, l, e)
    x = w.val(e['x']) if 'x' in e else None
    xs = w.vals(e['xs']) if 'xs' in e else None
    if 'other' in e:
        # not an ordinary list but another reference list with those contents
        xs = place(w.f, e['other'])
    none = res('none')
    l0 = l
    if op == 'append':
        r = l.append(x)
    elif op == 'extend':
        r = l.extend(xs)
    elif op == 'extendgen':
        r = l.extend(gen_of(xs))
    elif op == 'extendbad':
        r = l.extend(gen_of(xs, True))
    elif op == 'extendself':
        r = l.extend(l)
    elif op == 'sliceself':
        l[len(l):] = l
        r = None
    elif op == 'iadd':
        l += xs
        r = None
    elif op == 'imul':
        l *= e['i']
        r = None
    elif op == 'insert':
        r = l.insert(e['i'], x)
    elif op == 'remove':
        r = l.remove(x)
    elif op == 'pop':
        return res('val', [w.num(l.pop(*e['at']))])
    elif op == 'del':
        del l[e['i']]
        r = None
    elif op == 'get':
        return res('val', [w.num(l[e['i']])])
    elif op == 'set':
        l[e['i']] = x
        r = None
    elif op in ('getslice', 'delslice', 'setslice'):
        s = slice(opt(e['a']), opt(e['b']), opt(e['c']))
        if op == 'getslice':
            return res('list', w.nums(as_list(l[s])))
        if op == 'delslice':
            del l[s]
        else:
            l[s] = xs
        r = None
    elif op == 'clear':
        r = l.clear()
    elif op == 'sort':
        r = l.sort(key=key_of(w, e['m']), reverse=e['down'])
    elif op == 'reverse':
        r = l.reverse()
    elif op == 'index':
        a = [] if not e['a'] else [e['a'][0]] if not e['b'] else [e['a'][0], e['b'][0]]
        return res('int', [l.index(x, *a)])
    elif op == 'count':
        return res('int', [l.count(x)])
    elif op == 'in':
        return res('bool', [int(x in l)])
    elif op == 'notin':
        return res('bool', [int(x not in l)])
    elif op == 'iter':
        return res('list', [w.num(v) for v in l])
    elif op == 'tuple':
        return res('list', w.nums(tuple(l)))
    elif op == 'unpack':
        return res('list', w.nums([*l]))
    elif op == 'enum':
        return res('list', [w.num(v) for i, v in enumerate(l)])
    elif op == 'reversed':
        return res('list', w.nums(reversed(l)))
    elif op == 'sorted':
        return res('list', w.nums(sorted(l, key=key_of(w, e['m']), reverse=e['down'])))
    elif op == 'len':
        return res('int', [len(l)])
    elif op == 'bool':
        return res('bool', [int(bool(l))])
    elif op == 'add':
        return res('list', w.nums(as_list(l + xs)))
    elif op == 'radd':
        return res('list', w.nums(as_list(xs + l)))
    elif op == 'mul':
        return res('list', w.nums(as_list(l * e['i'])))
    elif op == 'eq':
        return res('bool', [int(l == xs)])
    elif op == 'ne':
        return res('bool', [int(l != xs)])
    else:
        raise Odd(op)
    if l is not l0:
        return res('another list')
    return none if r is None else res('something')


def as_list(v):
    """what ordinary code sees of a list an operation returned, raw items included"""
    if not isinstance(v, list):
        raise Odd('not a list')
    if type(v) is list:
        return v
    return [list.__getitem__(v, i) for i in range(len(v))] if 0 else list(v)


def values(f, w):
    import datetime, decimal, fractions, uuid, array, enum, avb.mobid
    e = enum.IntEnum('E', {'x': 3}).x
    return {
        'integer': 5, 'boolean': True, 'text': u'x', 'bytearray': bytearray(b'ab'), 'object': w.leaf[2], 'nothing': None,
        'bytes': b'ab', 'empty bytes': b'', 'float': 1.5, 'whole float': 2.0, 'list': [], 'list of numbers': [1, 2], 'tuple': (), 'dict': {},
        'ordered dict': collections.OrderedDict(), 'set': set(), 'complex': 1j, 'object()': object(), 'mob id': avb.mobid.MobID(),
        'date': datetime.datetime(2000, 1, 1), 'uuid': uuid.UUID(int=7), 'decimal': decimal.Decimal(1), 'fraction': fractions.Fraction(1),
        'class': int, 'function': values, 'ellipsis': Ellipsis, 'memoryview': memoryview(b'ab'), 'array': array.array('B', [1]),
        'range': range(3), 'document': f, 'track': f.create.Track(), 'key text': u'x', 'properties': w.leaf[2].property_data,
        'notimplemented': NotImplemented}


def try_save(w, m, e):
    import io
    f = w.f
    if e['op'] == 'savevalue':
        k, v = u'a', values(f, w)[e['ty']]
    else:
        k, v = {'text': u'new', 'bytes': b'new', 'number': 3, 'nothing': None, 'tuple': (u'a',)}[e['ty']], 1
    was = list(m.items())
    m[k] = v
    p = os.path.join(os.getcwd(), 'try.avb')
    try:
        f.write(p)
        r = 'none'
    except Exception:
        r = 'refused'
    m.clear()
    for a, b in was:
        m[a] = b
    if r == 'refused':
        f.write(p)
    return r


def map_op(w, m, e):
    op = e['op']
    if op == 'loop':
        return loop_map(w, m, e)
    k = KEYS[e['k']] if 'k' in e else None
    x = w.val(e['x']) if 'x' in e else None
    d = [w.val(n) for n in e.get('d', [])]
    xs = None
    if 'xs' in e:
        xs = [(KEYS[e['xs'][i]], w.val(e['xs'][i + 1])) for i in range(0, len(e['xs']), 2)]
    m0 = m

    def flat(items):
        out = []
        for a, b in items:
            out += [KEYS.index(a), w.num(b)]
        return out
    r = None
    if op == 'set':
        m[k] = x
    elif op == 'del':
        del m[k]
    elif op == 'get':
        return res('val', [w.num(m[k])])
    elif op == 'getd':
        return res('val', [w.num(m.get(k, *d) if d else m.get(k))])
    elif op == 'pop':
        return res('val', [w.num(m.pop(k, *d))])
    elif op == 'popitem':
        return res('list', flat([m.popitem() if e['last'] and e.get('plain') else m.popitem(last=e['last'])]))
    elif op == 'setdefault':
        return res('val', [w.num(m.setdefault(k, *d))])
    elif op == 'update':
        r = m.update(collections.OrderedDict(xs))
    elif op == 'updatepairs':
        r = m.update(xs)
    elif op == 'updateattr':
        o = w.f.create.Attributes()
        for a, b in xs:
            o[a] = b
        r = m.update(o)
    elif op == 'ior':
        m |= dict(xs)
    elif op == 'or':
        return res('list', flat((m | dict(xs)).items()))
    elif op == 'ror':
        return res('list', flat((dict(xs) | m).items()))
    elif op in ('savevalue', 'savekey'):
        return res(try_save(w, m, e))
    elif op == 'clear':
        r = m.clear()
    elif op == 'keys':
        return res('list', [KEYS.index(a) for a in m.keys()])
    elif op == 'iter':
        return res('list', [KEYS.index(a) for a in m])
    elif op == 'reversed':
        return res('list', [KEYS.index(a) for a in reversed(m)])
    elif op == 'values':
        return res('list', w.nums(m.values()))
    elif op == 'items':
        return res('list', flat(m.items()))
    elif op == 'dict':
        return res('list', flat(dict(m).items()))
    elif op == 'len':
        return res('int', [len(m)])
    elif op == 'bool':
        return res('bool', [int(bool(m))])
    elif op == 'in':
        return res('bool', [int(k in m)])
    elif op == 'move':
        r = m.move_to_end(k, last=e['last'])
    elif op == 'eq':
        return res('bool', [int(m == dict(xs))])
    elif op == 'eqordered':
        return res('bool', [int(m == collections.OrderedDict(xs))])
    else:
        raise Odd(op)
    if m is not m0:
        return res('another map')
    return res('none') if r is None else res('something')


def look(w, c, x):
    if c['map']:
        out = []
        for k in list(x):
            out += [KEYS.index(k), w.num(x[k])]
        return out
    return [w.num(x[i]) for i in range(len(x))]


def place(f, c):
    """the collection of a case in an opened document"""
    h = f.content.attributes
    o = h[c['key']]
    return o.components if c['kind'] == 'SEQU' else o


def leaves(f):
    h = f.content.attributes
    return dict((n, h[u'leaf%d' % n]) for n in (1, 2, 3))


def fresh(f, c, w):
    """a new collection with the same contents"""
    if c['map']:
        m = f.create.Attributes()
        for i in range(0, len(c['s']), 2):
            m[KEYS[c['s'][i]]] = w.val(c['s'][i + 1])
        o = m
    elif c['kind'] == 'TMCS':
        o = f.create.TimeCrumbList()
        o.extend(w.vals(c['s']))
    else:
        o = f.create.ParameterList()
        o.extend(w.vals(c['s']))
    f.content.attributes[u'new'] = o
    return o


def case(c, work):
    f = avb.open(c['path'], use_ext=c.get('ext', False))
    late = c.get('late')
    x = None if c.get('new') else place(f, c)
    w = World(f, leaves(f))
    if c.get('new'):
        x = fresh(f, c, w)
    got = []
    for e in c['ops']:
        try:
            r = (map_op if c['map'] else list_op)(w, x, e)
        except (Odd, MemoryError):
            raise
        except Exception as err:
            r = res(type(err).__name__)
        g = {'r': r}
        if not late:
            g['s'] = look(w, c, x)
        got.append(g)
    out = {'got': got, 'end': look(w, c, x)}
    if c.get('save'):
        p = os.path.join(work, 'c.avb')
        new = c.get('new')
        if c.get('drop'):
            x = None
            gc.collect()
        f.write(p, byte_order=c['save'])
        f.close()
        g = avb.open(p)
        w2 = World(g, leaves(g))
        y = g.content.attributes[u'new'] if new else place(g, c)
        out['back'] = look(w2, c, y)
        g.close()
    else:
        f.close()
    return out


def main(job, work):
    out = []
    for c in job['cases']:
        try:
            out.append(case(c, work))
        except Exception as e:
            out.append(drv.err(e))
    return out


if __name__ == '__main__':
    drv.run(main)
