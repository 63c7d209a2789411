"""Conversions between the wire values of AvbWire.tla and pyavb's Python values,
driven by the layout table exported from AvbSchema.tla.  Runs under CPython 3.12
and PyPy 3.9 (driver side), and in the harness."""
import struct, uuid, datetime, json
from decimal import Decimal

EPOCH = datetime.datetime(1970, 1, 1)
WIDTH = {'u8': 1, 's8': 1, 'u16': 2, 's16': 2, 'x4949': 2, 'u32': 4, 's32': 4, 'u64': 8, 's64': 8}
HELPER_OF = {'items': 'BinItem', 'sifted_settings': 'SiftItem', 'plugins': 'ASPIPlugin',
             'tracks': 'Track'}


class Schema(object):
    def __init__(self, path):
        with open(path) as fh:
            d = json.load(fh)
        self.classes = d['classes']
        self.track = d['track']
        self.binitem = d['binitem']
        self.sift = d['sift']
        self.plugin = d['plugin']
        self.by_py = dict((c['py'], cid) for cid, c in self.classes.items())

    def items(self, cid):
        """[(item, needed-names or None)] of every item that carries a property"""
        out = []
        for s in self.classes[cid]['secs']:
            for it in s['items']:
                out.append((it, None))
            for x in s['exts']:
                for it in x['items']:
                    out.append((it, x['need']))
        return out

    def props(self, cid):
        """name -> (item, optional group or None), in file order; a length or
        count field is left to its body; 'legacy' is derived"""
        out = {}
        for it, need in self.items(cid):
            if it['op'] in ('lit', 'litt', 'skip', 'len', 'count32', 'legacy', 'locks'):
                continue
            out[it['n']] = (it, need)
        return out


class Bad(Exception):
    pass


# ---- scalars ------------------------------------------------------------
def int_to_w(v, w, signed):
    return list(int(v).to_bytes(w, 'big', signed=signed))


def rate_to_w(v):
    """shortest decimal with at most 6 places"""
    d = Decimal(repr(v))
    sign, digits, exp = d.as_tuple()
    m = int(''.join(map(str, digits)))
    if sign:
        m = -m
    if m == 0:
        return [0, 0]
    while exp < 0 and m % 10 == 0:
        m //= 10
        exp += 1
    if exp > 0:
        m *= 10 ** exp
        exp = 0
    if abs(m) >= 2 ** 31:
        return ['rate', repr(v)]
    return [m, -exp]


def to_py(t, w, env):
    if t in WIDTH:
        return int.from_bytes(bytes(w), 'big', signed=t[0] == 's')
    if t == 'double':
        return struct.unpack('>d', bytes(w))[0]
    if t == 'bool':
        return w
    if t == 'uuid':
        return uuid.UUID(bytes=bytes(w))
    if t == 'time':
        return EPOCH + datetime.timedelta(seconds=int.from_bytes(bytes(w), 'big'))
    if t == 'fourcc':
        return bytes(w)
    if t == 'str':
        return bytes(w).decode('mac_roman')
    if t in ('nstr', 'pstr'):
        return bytes(w).decode('mac_roman') if w else None
    if t == 'ustr':
        return bytes(w).decode('utf-8')
    if t == 'exp10':
        return float(Decimal(w[0]).scaleb(-w[1]))
    if t == 'ref':
        return env.obj(int.from_bytes(bytes(w), 'big'))
    if t == 'mobid':
        return env.mobid(w)
    raise Bad(t)


def mobid_wire(m):
    mat = m.material
    return ([int(x) for x in m.SMPTELabel] + [m.length, m.instanceHigh, m.instanceMid, m.instanceLow]
            + list(mat.bytes))


def from_py(t, v, env):
    """raises Bad (or anything) when v is not a value of type t"""
    if t in WIDTH:
        if isinstance(v, bool) or not isinstance(v, int):
            if not (t == 'u8' and isinstance(v, bool)):
                raise Bad('%s %r' % (t, v))
        return int_to_w(v, WIDTH[t], t[0] == 's')
    if t == 'double':
        if not isinstance(v, float):
            raise Bad('double %r' % (v,))
        return list(struct.pack('>d', v))
    if t == 'bool':
        if v is True or v is False:
            return v
        raise Bad('bool %r' % (v,))
    if t == 'uuid':
        return list(v.bytes)
    if t == 'time':
        return int_to_w((v - EPOCH).total_seconds(), 4, False)
    if t == 'fourcc':
        if len(v) != 4:
            raise Bad('fourcc %r' % (v,))
        return list(bytes(v))
    if t in ('str', 'nstr', 'pstr', 'ustr'):
        if v is None or v == u'':
            return []
        if not isinstance(v, str):
            raise Bad('text %r' % (v,))
        return list(v.encode('utf-8' if t == 'ustr' else 'mac_roman'))
    if t == 'exp10':
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            raise Bad('rate %r' % (v,))
        return rate_to_w(v)
    if t == 'ref':
        return int_to_w(env.ref(v), 4, False)
    if t == 'mobid':
        return mobid_wire(v)
    raise Bad(t)


def blob(v):
    if not isinstance(v, (bytes, bytearray)):
        raise Bad('bytes %r' % (v,))
    return list(v)


# ---- composite ----------------------------------------------------------
def case_type(it, key):
    for k, t in it['alts']:
        if k == key:
            return t
    raise Bad('case %r' % (key,))


def _case_key_w(it, rec, par):
    k = par['value_type'] if it['on'] == '^value_type' else rec[it['on']]
    return int.from_bytes(bytes(k), 'big', signed=True)


def item_to_py(sc, it, w, rec, par, env):
    op = it['op']
    if op == 'fld':
        return to_py(it['t'], w, env)
    if op == 'tup':
        return [to_py(t, x, env) for t, x in zip(it['ts'], w)]
    if op == 'grid':
        return [[to_py('s32', a, env), to_py('s32', b, env)] for a, b in w]
    if op == 'refs':
        return [to_py('ref', x, env) for x in w]
    if op in ('recs', 'recbody'):
        return [shaped(sc, it['shape'], it['items'], x, rec, env) for x in w]
    if op in ('data', 'raw', 'body', 'path9'):
        return bytearray(w)
    if op == 'ints':
        return [to_py('s32', x, env) for x in w]
    if op == 'case':
        return to_py(case_type(it, _case_key_w(it, rec, par)), w, env)
    if op == 'tracks':
        out = []
        for tr in w:
            o = env.create('Track')
            for _, n, t in sc.track:
                if n in tr:
                    setattr(o, n, to_py(t, tr[n], env))
                else:
                    env.drop(o, n)
            if 'lock_number' in tr:
                o.lock_number = to_py('s16', tr['lock_number'], env)
            else:
                env.drop(o, 'lock_number')
            out.append(o)
        return out
    if op == 'binver':
        return w
    if op == 'binitems':
        return [shaped(sc, 'BinItem', sc.binitem, x, rec, env) for x in w]
    if op == 'sift6':
        return [shaped(sc, 'SiftItem', sc.sift, x, rec, env) for x in w]
    if op == 'plugin1':
        return [shaped(sc, 'ASPIPlugin', sc.plugin, x, rec, env) for x in w]
    if op == 'fmtdesc':
        return [{'vcid_free_column_id': to_py('s16', x['vcid_free_column_id'], env),
                 'format_descriptor': bytes(x['format_descriptor']).decode('utf-8')} for x in w]
    if op == 'selected':
        return to_py('u16', w, env)
    if op == 'pixels':
        return [{'Code': x['Code'][0], 'Size': x['Size'][0]} for x in w]
    if op == 'mpgfields':
        return [[x['#0'][0], to_py('u32', x['#1'], env)] for x in w]
    if op == 'attrs':
        return [(bytes(a['k']).decode('mac_roman'),
                 {1: lambda: to_py('s32', a['v'], env), 2: lambda: to_py('str', a['v'], env),
                  3: lambda: to_py('ref', a['v'], env), 4: lambda: bytearray(a['v'])}[a['t']]())
                for a in w]
    raise Bad(op)


def shaped(sc, shape, items, x, par, env):
    vals = {}
    for it in items:
        if it['op'] in ('lit', 'litt', 'len', 'skip'):
            continue
        vals[it['n']] = item_to_py(sc, it, x[it['n']], x, par, env)
    if shape == 'dict':
        return vals
    if shape == 'list':
        return [vals['#0'], vals['#1']]
    if shape == 'scalar':
        return vals['#']
    o = env.create(shape)
    for n, v in vals.items():
        setattr(o, n, v)
    return o


def key_names(sc, cid):
    return list(sc.props(cid))


MISSING = object()


def getprop(o, n):
    """a property as a user sees it, MISSING when the object has none"""
    pd = getattr(o, 'property_data', None)
    if pd is not None:
        if n not in pd:
            return MISSING
        return pd[n]
    return getattr(o, n, MISSING)


def item_from_py(sc, it, v, o, par, env):
    op = it['op']
    if op == 'fld':
        return from_py(it['t'], v, env)
    if op == 'tup':
        if len(v) != len(it['ts']):
            raise Bad('tuple %r' % (v,))
        return [from_py(t, x, env) for t, x in zip(it['ts'], v)]
    if op == 'grid':
        return [[from_py('s32', a, env), from_py('s32', b, env)] for a, b in v]
    if op == 'refs':
        return [from_py('ref', x, env) for x in v]
    if op in ('recs', 'recbody'):
        return [unshaped(sc, it['shape'], it['items'], x, o, env) for x in v]
    if op in ('data', 'raw', 'body', 'path9'):
        return blob(v)
    if op == 'ints':
        return [from_py('s32', x, env) for x in v]
    if op == 'case':
        if it['on'] == '^value_type':
            key = getprop(par, 'value_type')
        else:
            key = getprop(o, it['on'])
        return from_py(case_type(it, key), v, env)
    if op == 'tracks':
        out = []
        for tr in v:
            d = {}
            for _, n, t in sc.track:
                x = getprop(tr, n)
                if x is not MISSING:
                    d[n] = from_py(t, x, env)
            x = getprop(tr, 'lock_number')
            if x is not MISSING:
                d['lock_number'] = from_py('s16', x, env)
            out.append(d)
        return out
    if op == 'binver':
        return from_py('bool', v, env)
    if op == 'binitems':
        return [unshaped(sc, 'BinItem', sc.binitem, x, o, env) for x in v]
    if op == 'sift6':
        return [unshaped(sc, 'SiftItem', sc.sift, x, o, env) for x in v]
    if op == 'plugin1':
        return [unshaped(sc, 'ASPIPlugin', sc.plugin, x, o, env) for x in v]
    if op == 'fmtdesc':
        return [{'vcid_free_column_id': from_py('s16', x['vcid_free_column_id'], env),
                 'format_descriptor': list(x['format_descriptor'].encode('utf-8'))} for x in v]
    if op == 'selected':
        return from_py('u16', v, env)
    if op == 'pixels':
        return [{'Code': [x['Code']], 'Size': [x['Size']]} for x in v]
    if op == 'mpgfields':
        return [{'#0': [x[0]], '#1': from_py('u32', x[1], env)} for x in v]
    if op == 'attrs':
        out = []
        for k, x in v:
            kb = list(k.encode('mac_roman'))
            if isinstance(x, bool):
                raise Bad('bool attribute')
            if isinstance(x, int):
                out.append({'k': kb, 't': 1, 'v': from_py('s32', x, env)})
            elif isinstance(x, str):
                out.append({'k': kb, 't': 2, 'v': from_py('str', x, env)})
            elif isinstance(x, (bytes, bytearray)):
                out.append({'k': kb, 't': 4, 'v': blob(x)})
            else:
                out.append({'k': kb, 't': 3, 'v': from_py('ref', x, env)})
        return out
    raise Bad(op)


def unshaped(sc, shape, items, x, par, env):
    d = {}
    for it in items:
        if it['op'] in ('lit', 'litt', 'len', 'skip'):
            continue
        n = it['n']
        if shape == 'dict':
            v = x[n]
        elif shape == 'list':
            v = x[int(n[1:])]
        elif shape == 'scalar':
            v = x
        else:
            v = getprop(x, n)
            if v is MISSING:
                raise Bad('missing ' + n)
        src = x
        d[n] = item_from_py(sc, it, v, src, par, env)
    return d


# ---- whole objects ------------------------------------------------------
def build(sc, cid, rec, env):
    """make a new pyavb object holding rec"""
    o = env.create(sc.classes[cid]['py'])
    fill(sc, cid, o, rec, env)
    return o


def fill(sc, cid, o, rec, env):
    for n, (it, need) in sc.props(cid).items():
        if n not in rec:
            env.drop(o, n)
            continue
        v = item_to_py(sc, it, rec[n], rec, None, env)
        if it['op'] == 'attrs':
            for k, x in v:
                o[k] = x
        elif it['op'] == 'refs' and cid in ('PRLS', 'TMCS'):
            for x in v:
                o.append(x)
        elif it['op'] == 'refs':
            lst = getprop(o, n)
            if lst is MISSING:
                setattr(o, n, env.reflist(o))
                lst = getprop(o, n)
            for x in v:
                lst.append(x)
        else:
            setattr(o, n, v)


def project(sc, cid, o, env):
    """wire values of every property the object has; a property whose value is not of
    the declared type becomes {'bad': ...}"""
    rec = {}
    for n, (it, need) in sc.props(cid).items():
        if it['op'] == 'attrs':
            v = list(o.items())
        elif it['op'] == 'refs' and cid in ('PRLS', 'TMCS'):
            v = list(o)
        else:
            v = getprop(o, n)
            if v is MISSING:
                continue
        try:
            rec[n] = item_from_py(sc, it, v, o, None, env)
        except Exception as e:
            rec[n] = {'bad': '%s: %s' % (type(e).__name__, e)}
    return rec


# ---- references inside a record ------------------------------------------
def map_refs(sc, cid, rec, fn):
    out = {}
    for n, (it, need) in sc.props(cid).items():
        if n in rec:
            out[n] = map_item(sc, it, rec[n], rec, None, fn)
    return out


def map_item(sc, it, w, rec, par, fn):
    op = it['op']
    if op == 'fld' and it['t'] == 'ref':
        return fn(w)
    if op == 'refs':
        return [fn(x) for x in w]
    if op in ('recs', 'recbody'):
        return [map_items(sc, it['items'], x, rec, fn) for x in w]
    if op == 'case':
        return fn(w) if case_type(it, _case_key_w(it, rec, par)) == 'ref' else w
    if op == 'tracks':
        refs = set(n for _, n, t in sc.track if t == 'ref')
        return [dict((n, fn(v) if n in refs else v) for n, v in tr.items()) for tr in w]
    if op == 'binitems':
        return [map_items(sc, sc.binitem, x, rec, fn) for x in w]
    if op == 'attrs':
        return [dict(a, v=fn(a['v'])) if a['t'] == 3 else a for a in w]
    return w


def map_items(sc, items, x, par, fn):
    out = dict(x)
    for it in items:
        if it.get('n') in x:
            out[it['n']] = map_item(sc, it, x[it['n']], x, par, fn)
    return out
