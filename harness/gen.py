"""Seeded generators of wire values, driven by the layout table."""
from wire import WIDTH, Schema

RATES = [[24, 0], [25, 0], [30, 0], [23976, 3], [2997, 2], [5994, 2], [48000, 0], [0, 0], [1, 0],
         [1, 1], [3, 1], [1005, 3], [119880, 0], [123456, 6], [-24, 0], [-15, 1], [59940059, 6],
         [2147483647, 0], [-2147483647, 0], [44100, 0], [47952, 3], [1, 6], [59, 0], [599, 1], [5994, 0],
         [5994, 1], [5994, 3], [-5994, 2], [1001, 3], [999999, 6]]
UTF = ['', 'clip', 'Ünïcode', '日本語/パス.mxf', '\U0001F3AC', 'a\u0301', 'x\x00y', '/Volumes/MXF/1/a.mxf', '\ufeffb', ' ']


def be(n, w):
    return list((n & ((1 << (8 * w)) - 1)).to_bytes(w, 'big'))


class Gen(object):
    def __init__(self, sc, rng, nleaf, big=False):
        self.sc, self.rng, self.nleaf, self.big = sc, rng, nleaf, big
        self.long = (None, 0)     # a list (or '' for every text) and how long to make it

    def integer(self, w):
        r = self.rng
        k = r.random()
        if k < 0.35:
            bits = 8 * w
            n = r.choice([0, 1, 2, 255, 256, (1 << (bits - 1)) - 1, 1 << (bits - 1), (1 << bits) - 1,
                          (1 << (bits - 1)) + 1, 0x0102030405060708 >> (64 - bits), 71, 65535])
        elif k < 0.7:
            n = r.getrandbits(8 * w)
        else:
            n = r.randrange(0, 300)
        return be(n, w)

    def text(self, maxlen=24):
        r = self.rng
        k = r.random()
        if k < 0.15 and self.long[0] != '':
            return []
        n = r.choice([1, 2, 3, 5, 8, 13, maxlen])
        if self.long[0] == '':
            n = self.long[1]
        if self.big and k > 0.97:
            n = r.choice([255, 256, 300, 1000])
        out = [r.randrange(32, 127) if r.random() < 0.7 else r.randrange(0, 256) for _ in range(n)]
        for i in (0, -1):
            if out[i] == 0:
                out[i] = 65
        return out

    def scalar(self, t):
        r = self.rng
        if t == 'x4949':
            return [73, 73]
        if t in WIDTH:
            return self.integer(WIDTH[t])
        if t == 'double':
            import struct
            v = r.choice([0.0, -0.0, 1.0, -1.5, 0.1, 1e300, 5e-324, float('inf'), r.uniform(-1e6, 1e6), 3.0])
            return list(struct.pack('>d', v))
        if t == 'bool':
            return r.random() < 0.5
        if t == 'uuid':
            return [r.randrange(256) for _ in range(16)]
        if t == 'time':
            return be(r.choice([0, 1, 86400, 1500000000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, r.getrandbits(32)]), 4)
        if t == 'fourcc':
            return [r.randrange(32, 127) for _ in range(4)]
        if t in ('str', 'nstr', 'pstr'):
            return self.text()
        if t == 'ustr':
            return list((r.choice(UTF) + (r.choice(UTF) if r.random() < .3 else '')).encode('utf-8'))
        if t == 'exp10':
            if r.random() < 0.7:
                return list(r.choice(RATES))
            k = r.randrange(0, 7)
            m = r.choice([r.randrange(1, 10 ** 6), r.randrange(1, 2 ** 31 - 1)])
            while k > 0 and m % 10 == 0:
                m //= 10
                k -= 1
            return [m if r.random() < .9 else -m, k]
        if t == 'ref':
            if self.nleaf == 0 or r.random() < 0.2:
                return [0, 0, 0, 0]
            return be(r.randrange(1, self.nleaf + 1), 4)
        if t == 'mobid':
            m = [r.randrange(256) for _ in range(32)]
            if r.random() < .3:
                m[11] = 0
                m[16:22] = [0x06, 0x0e, 0x2b, 0x34, 0x7f, 0x7f] if r.random() < .5 else m[16:22]
                m[24:30] = [0x06, 0x0e, 0x2b, 0x34, 0x7f, 0x7f] if r.random() < .5 else m[24:30]
            if r.random() < .1:
                m = [0] * 32
            return m
        raise KeyError(t)

    def count(self, top=4):
        return self.rng.choice([0, 1, 1, 2, 3, top])

    def blob(self):
        r = self.rng
        n = r.choice([0, 1, 2, 7, 16, 33])
        if self.big and r.random() < .02:
            n = r.choice([255, 256, 1000])
        return [r.randrange(256) for _ in range(n)]

    def items(self, items, par=None):
        rec = {}
        need = {}
        for it in items:
            if it['op'] == 'case' and it['on'][0] != '^':
                need[it['on']] = [k for k, _ in it['alts']]
        # a nested '^value_type' constrains this record's value_type as well
        for it in items:
            if it['op'] == 'recs':
                for s in it['items']:
                    if s['op'] == 'case' and s['on'] == '^value_type':
                        need['value_type'] = [k for k, _ in s['alts']]
        for it in items:
            if it['op'] in ('lit', 'litt', 'skip', 'len', 'count32', 'legacy', 'locks'):
                continue
            n = it['n']
            if n in need:
                rec[n] = be(self.rng.choice(need[n]), 2)
            else:
                rec[n] = self.item(it, rec, par)
        return rec

    LONG = ('refs', 'recs', 'recbody', 'data', 'body', 'path9', 'ints', 'tracks', 'binitems', 'fmtdesc', 'pixels',
            'mpgfields', 'attrs')

    def lists(self, items):
        """names of the lists among the items, nested ones too"""
        out = []
        for it in items:
            if it['op'] in self.LONG:
                out.append(it['n'])
            out += self.lists(it.get('items') or [])
        return out

    def item(self, it, rec, par):
        if self.long[0] is not None and it.get('n') == self.long[0]:
            name, n = self.long
            self.long = (None, 0)

            def once(top=4):      # only the outermost count
                self.count = type(self).count.__get__(self)
                return n
            self.count, self.blob = once, lambda: [self.rng.randrange(256) for _ in range(n)]
            try:
                return self.item(it, rec, par)
            finally:
                self.count, self.blob = type(self).count.__get__(self), type(self).blob.__get__(self)
                self.long = (name, n)
        r, op = self.rng, it['op']
        if op == 'fld':
            return self.scalar(it['t'])
        if op == 'tup':
            return [self.scalar(t) for t in it['ts']]
        if op == 'grid':
            return [[self.scalar('s32'), self.scalar('s32')] for _ in range(it['k'])]
        if op == 'refs':
            return [self.scalar('ref') for _ in range(self.count())]
        if op in ('recs', 'recbody'):
            return [self.items(it['items'], rec) for _ in range(self.count(3))]
        if op in ('data', 'body', 'path9'):
            return self.blob()
        if op == 'raw':
            return [r.randrange(256) for _ in range(it['k'])]
        if op == 'ints':
            return [self.scalar('s32') for _ in range(self.count())]
        if op == 'case':
            k = (par if it['on'] == '^value_type' else rec)
            k = k['value_type'] if it['on'] == '^value_type' else k[it['on']]
            k = int.from_bytes(bytes(k), 'big', signed=True)
            return self.scalar([t for a, t in it['alts'] if a == k][0])
        if op == 'tracks':
            out = []
            for _ in range(self.count(3)):
                d = {}
                p = r.choice([0.1, 0.5, 0.9])
                for _, n, t in self.sc.track:
                    if r.random() < p:
                        d[n] = self.scalar(t)
                if r.random() < .5:
                    d['lock_number'] = self.scalar('s16')
                out.append(d)
            return out
        if op == 'binver':
            return r.random() < .3
        if op == 'binitems':
            return [self.items(self.sc.binitem) for _ in range(self.count(3))]
        if op == 'sift6':
            return [self.items(self.sc.sift) for _ in range(6)]
        if op == 'plugin1':
            return [self.items(self.sc.plugin) for _ in range(r.choice([1, 1, 0, 2]))]
        if op == 'fmtdesc':
            return [{'vcid_free_column_id': self.scalar('s16'), 'format_descriptor': self.scalar('ustr')}
                    for _ in range(self.count(3))]
        if op == 'selected':
            return be(r.randrange(max(1, len(rec['tracks']))), 2)
        if op == 'pixels':
            return [{'Code': [r.randrange(256)], 'Size': [r.randrange(256)]} for _ in range(self.count())]
        if op == 'mpgfields':
            return [{'#0': [r.randrange(256)], '#1': self.scalar('u32')} for _ in range(self.count())]
        if op == 'attrs':
            out, seen = [], set()
            for _ in range(self.count(6)):
                k = self.text(10)
                if tuple(k) in seen:
                    continue
                seen.add(tuple(k))
                t = r.randrange(1, 5)
                v = {1: lambda: self.scalar('s32'), 2: lambda: self.text(), 3: lambda: self.scalar('ref'),
                     4: lambda: self.blob()}[t]()
                out.append({'k': k, 't': t, 'v': v})
            return out
        raise KeyError(op)

    def rec(self, cid, density=None):
        """a storable object of class cid"""
        r = self.rng
        rec = {}
        p = r.choice([0.0, 0.3, 0.7, 1.0]) if density is None else density
        for s in self.sc.classes[cid]['secs']:
            rec.update(self.items(s['items'], None) if not self._needs_before(s) else self._ordered(s, rec))
            legacy0 = any(i['op'] == 'legacy' and i['pre'] == 0 for i in s['items'])
            for x in s['exts']:
                names = x['need']
                if names and names[0].startswith('#'):
                    continue
                if legacy0 and names == ['mob_id'] or r.random() < p:
                    rec.update(self.items([i for i in x['items'] if i.get('n') not in rec], rec))
        return rec

    def _needs_before(self, s):
        return any(i['op'] == 'selected' for i in s['items'])

    def _ordered(self, s, rec):
        if not rec.get('tracks'):
            rec['tracks'] = [{}]
        d = dict(rec)
        out = {}
        for it in s['items']:
            out[it['n']] = self.item(it, d, None)
        return out
