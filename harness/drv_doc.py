"""Driver: do random things with documents through the public API and record them as
the events of AvbDoc.tla (wire terms)."""
import datetime, gc, io, os, random, struct, sys, uuid, weakref
import drv, gen, wire, avb, avb.core

MISSING = wire.MISSING
SELECTORS = ('value_type', 'type', 'selected', 'byte_order', 'num_scalars')


def cid_of(o):
    c = getattr(o, 'class_id', None)
    return bytes(c).decode('latin1') if c else None


class AttrEnt(object):
    def __init__(self, o, k):
        self.o, self.k = o, k


def get(x, s):
    if s[0] == 'i':
        if cid_of(x) == 'ATTR':
            return AttrEnt(x, list(x.keys())[s[1]])
        return x[s[1]]
    n = s[1]
    if isinstance(x, AttrEnt):
        return x.o[x.k]
    if n == 'items' and cid_of(x) in ('ATTR', 'PRLS', 'TMCS'):
        return x
    if isinstance(x, dict):
        return x[n]
    if n[:1] == '#':
        return x[int(n[1:])] if n[1:] else x
    return wire.getprop(x, n)


def put(x, s, v):
    n = s[1]
    if isinstance(x, AttrEnt):
        x.o[x.k] = v
    elif s[0] == 'i':
        x[n] = v
    elif isinstance(x, dict):
        x[n] = v
    elif n[:1] == '#':
        x[int(n[1:])] = v
    else:
        setattr(x, n, v)


class NumEnv(drv.Env):
    """numbers objects in the order they are met"""

    def __init__(self):
        self.queue, self.num = [], {}

    def ref(self, o):
        if o is None:
            return 0
        n = self.num.get(id(o))
        if n is None:
            if cid_of(o) is None:
                raise wire.Bad('a reference to %s' % type(o).__name__)
            self.queue.append(o)
            n = self.num[id(o)] = len(self.queue)
        return n


class WEnv(drv.Env):
    """makes python values of wire values; references are handles"""

    def __init__(self, tr, f):
        self.tr, self.f = tr, f

    def obj(self, n):
        return None if n == 0 else self.tr.hand[n]


def odd(w):
    if isinstance(w, str):
        return True
    if isinstance(w, dict):
        return 'bad' in w or any(odd(v) for v in w.values())
    if isinstance(w, list):
        return any(odd(v) for v in w)
    return False


class Stop(Exception):
    pass


class Trace(object):
    def __init__(self, sc, seed, work, prof):
        self.sc, self.rng, self.work, self.prof = sc, random.Random(seed), work, prof
        self.ev = []
        self.f = {}
        self.path = {}
        self.hand, self.nh = {}, 0
        self.pins = {1: [], 2: []}
        self.saved = {}
        self.n = 0
        self.g = gen.Gen(sc, self.rng, 0)
        self.ext = prof.get('ext', False)
        self.counts = {}
        self.edited = {}

    # ---- logging -------------------------------------------------------
    def log(self, op, **kw):
        kw['op'] = op
        self.ev.append(kw)

    def flag(self, ok, what):
        self.log('flag', ok=bool(ok), what=what)
        if not ok:
            raise Stop()

    def docno(self, o):
        r = getattr(o, 'root', None)
        for d, f in self.f.items():
            if r is f:
                return d
        return 3

    def graph(self, start):
        env = NumEnv()
        env.ref(start)
        nodes, nums, i = [], [], 0
        while i < len(env.queue):
            o = env.queue[i]
            i += 1
            cid = cid_of(o)
            r = wire.project(self.sc, cid, o, env)
            if odd(r):
                bad = [n for n in sorted(r) if odd(r[n])]
                self.flag(False, 'content: navigation shows a value of the wrong type: %s.%s %s' % (cid, bad[0], str(r[bad[0]])[:80]))
            nodes.append({'cid': cid, 'r': r, 'doc': self.docno(o)})
            nums.append(o.instance_id)
        return nodes, nums, env

    # ---- documents -----------------------------------------------------
    def open(self, d, path, data=None):
        ev = {'d': d}
        if data is not None:
            ev['bytes'] = data
        try:
            f = avb.open(path, use_ext=self.ext) if not self.prof.get('fileobj') or self.rng.random() < .5 \
                else avb.open(io.open(path, 'rb'), use_ext=self.ext)
        except Exception as e:
            self.log('open', err=str(drv.err(e)), **ev)
            raise Stop()
        self.f[d] = f
        self.path[d] = path
        self.pins[d] = []
        with open(path, 'rb') as fh:
            self.saved[d] = (path, fh.read())
        if self.prof.get('shown', True):
            ev.update(self.shown(f))
        self.log('open', **ev)

    def shown(self, f):
        chunks, at = [], []
        every = list(f.chunks())
        for c in every[1:]:
            chunks.append([list(bytearray(c.class_id)), c.size])
            at.append(c.pos)
        # what is enumerated are the objects themselves
        by = []
        cids = sorted(set(bytes(c.class_id).decode('latin1') for c in every[1:]))
        for cs in self.rng.sample(cids, min(2, len(cids))) + [[self.rng.choice(sorted(self.sc.classes)), cids[0]]]:
            cs = cs if isinstance(cs, list) else [cs]
            objs = list(f.iter_class_ids([c.encode('latin1') for c in cs]))
            got = []
            for o in objs:
                hit = [i for i in range(1, len(every)) if bytes(every[i].class_id) == bytes(o.class_id) and f.read_object(i) is o]
                got.append(hit[0] if len(hit) == 1 else 0)
            by.append({'cs': cs, 'got': got})
        return dict(chunks=chunks, walked=at, byclass=by, **self.stamp(f))

    def stamp(self, f):
        return {'when': gen.be(int((f.last_save - wire.EPOCH).total_seconds()), 4),
                'creator': list(f.creator_version.rstrip(' ').encode('mac_roman'))}

    def new(self, d):
        f = avb.open()
        self.f[d] = f
        self.path[d] = None
        self.pins[d] = []
        self.saved[d] = None
        nodes, nums, env = self.graph(f.content)
        self.log('new', d=d, nodes=nodes, root=1)

    def close(self, d):
        """leave the document in one of the ways there are"""
        f = self.f.pop(d)
        for h in [h for h, o in self.hand.items() if o.root is f]:
            del self.hand[h]
        self.pins[d] = []
        way = self.rng.choice(['close', 'with', 'raise'])
        out = None
        try:
            if way == 'close':
                f.close()
            else:
                with f:
                    if way == 'raise':
                        raise KeyError('left by an exception')
        except KeyError as e:
            out = e.args
        except Exception as e:
            self.flag(False, 'close: raised %s' % drv.err(e))
        self.flag(way != 'raise' or out == ('left by an exception',), 'close: the exception that left the block is gone')
        if self.path.get(d):
            self.flag(not held_open(self.path[d]), 'close: the file is still open')
        return f

    # ---- places --------------------------------------------------------
    def leaves(self, it, v, path, o, par):
        """(kind, path, type or item, parent value) below a value"""
        op, r = it['op'], []
        if op == 'fld':
            if it['n'] not in SELECTORS:
                r.append(('leaf', path, it['t'], par))
        elif op == 'tup':
            r += [('leaf', path + [['i', k]], t, v) for k, t in enumerate(it['ts'])]
        elif op == 'grid':
            r += [('leaf', path + [['i', k], ['i', j]], 's32', v) for k in range(len(v)) for j in (0, 1)]
        elif op == 'ints':
            r.append(('list', path, it, par))
            r += [('leaf', path + [['i', k]], 's32', v) for k in range(len(v))]
        elif op == 'refs':
            r.append(('refs', path, it, par))
            r += [('leaf', path + [['i', k]], 'ref', v) for k in range(len(v))]
        elif op in ('recs', 'recbody', 'binitems', 'sift6', 'plugin1'):
            items = {'binitems': self.sc.binitem, 'sift6': self.sc.sift, 'plugin1': self.sc.plugin}.get(op) or it['items']
            if op != 'sift6':
                r.append(('list', path, it, par))
            shape = {'binitems': 'BinItem', 'sift6': 'SiftItem', 'plugin1': 'ASPIPlugin'}.get(op) or it['shape']
            for k, x in enumerate(v):
                for s in items:
                    if s['op'] in ('lit', 'litt', 'len', 'skip'):
                        continue
                    step = ['p', s['n']]
                    y = get(x, step)
                    if y is MISSING:
                        continue
                    if shape == 'scalar':
                        r.append(('leaf', path + [['i', k], step], s['t'], v))
                    else:
                        r += self.leaves(s, y, path + [['i', k], step], x, o if s.get('on') == '^value_type' else x)
        elif op == 'case':
            key = wire.getprop(par if it['on'] == '^value_type' else o, it['on'].lstrip('^'))
            r.append(('leaf', path, wire.case_type(it, key), o))
        elif op == 'tracks':
            r.append(('list', path, it, par))
            for k, tr in enumerate(v):
                for _, n, t in self.sc.track:
                    if wire.getprop(tr, n) is not MISSING:
                        r.append(('leaf', path + [['i', k], ['p', n]], t, tr))
                if wire.getprop(tr, 'lock_number') is not MISSING:
                    r.append(('leaf', path + [['i', k], ['p', 'lock_number']], 's16', tr))
        elif op == 'fmtdesc':
            r.append(('list', path, it, par))
            for k, x in enumerate(v):
                r.append(('leaf', path + [['i', k], ['p', 'vcid_free_column_id']], 's16', x))
                r.append(('leaf', path + [['i', k], ['p', 'format_descriptor']], 'ustr', x))
        elif op == 'pixels':
            r.append(('list', path, it, par))
            for k, x in enumerate(v):
                r.append(('leaf', path + [['i', k], ['p', 'Code']], 'u8', x))
                r.append(('leaf', path + [['i', k], ['p', 'Size']], 'u8', x))
        elif op == 'mpgfields':
            r.append(('list', path, it, par))
            for k, x in enumerate(v):
                r.append(('leaf', path + [['i', k], ['p', '#0']], 'u8', x))
                r.append(('leaf', path + [['i', k], ['p', '#1']], 'u32', x))
        elif op in ('data', 'raw', 'body', 'path9'):
            r.append(('bytes', path, it, par))
        elif op == 'binver':
            r.append(('leaf', path, 'bool', par))
        elif op == 'attrs':
            r.append(('attrs', path, it, par))
            for k, key in enumerate(list(v.keys())):
                x = v[key]
                t = ('s32' if isinstance(x, int) else 'str' if isinstance(x, str) else
                     'bytes' if isinstance(x, (bytes, bytearray)) else 'ref')
                p = path + [['i', k], ['p', 'v']]
                r.append(('bytes', p, {'op': 'data'}, v) if t == 'bytes' else ('leaf', p, t, v))
        return r

    def locs(self, o):
        cid = cid_of(o)
        out = []
        for n, (it, need) in self.sc.props(cid).items():
            v = get(o, ['p', n])
            if v is not MISSING:
                out += self.leaves(it, v, [['p', n]], o, o)
        return out

    def value(self, o, path):
        x = o
        for s in path:
            x = get(x, s)
        return x

    def refs_of(self, o):
        """[(path, object)] of the references that are not null"""
        out = []
        for kind, p, t, par in self.locs(o):
            if kind == 'leaf' and t == 'ref':
                x = self.value(o, p)
                if x is not None:
                    out.append((p, x))
        return out

    def walk(self, frm=None, depth=None, d=None):
        """a random object below a document or handle: (at, object)"""
        if frm is None:
            d = d or self.rng.choice(sorted(self.f))
            frm = -d
            mine = [h for h, o in self.hand.items() if o.root is self.f[d]]
            if mine and self.rng.random() < .3:
                frm = self.rng.choice(mine)
        o = self.f[-frm].content if frm < 0 else self.hand[frm]
        steps = []
        depth = self.rng.choice([0, 1, 1, 2, 3, 4, 6]) if depth is None else depth
        for _ in range(depth):
            refs = self.refs_of(o)
            if not refs:
                break
            p, o = self.rng.choice(refs)
            steps += p + [['d']]
        return {'from': frm, 'steps': steps}, o

    def reaches(self, x, o):
        seen, todo = {}, [x]
        while todo:
            y = todo.pop()
            if y is o:
                return True
            if id(y) in seen:
                continue
            seen[id(y)] = y
            todo += [z for p, z in self.refs_of(y)]
        return False

    # ---- operations ----------------------------------------------------
    def hold(self):
        at, o = self.walk()
        self.take(at, o)

    def take(self, at, o):
        self.nh += 1
        self.hand[self.nh] = o
        self.log('hold', h=self.nh, at=at)
        return self.nh

    def drop(self):
        if self.hand:
            h = self.rng.choice(sorted(self.hand))
            del self.hand[h]
            self.log('drop', h=h)

    def gc(self):
        gc.collect()

    def create(self, d=None, cid=None):
        d = d or self.rng.choice(sorted(self.f))
        f = self.f[d]
        cid = cid or self.rng.choice(sorted(self.sc.classes))
        rec = self.g.rec(cid, self.rng.choice([0.0, .5, 1.0]))
        mine = [h for h, o in self.hand.items() if o.root is f]
        if mine:
            def put_handle(w):
                return gen.be(self.rng.choice(mine), 4) if self.rng.random() < .3 else w
            # references of the new object may be objects in hand
            rec = wire.map_refs(self.sc, cid, rec, put_handle)
        env = WEnv(self, f)
        try:
            o = wire.build(self.sc, cid, rec, env)
        except Exception as e:
            self.flag(False, 'edit: a %s could not be made: %s' % (cid, drv.err(e)))
        self.nh += 1
        self.hand[self.nh] = o
        self.log('create', h=self.nh, d=d, cid=cid, rec=rec)
        return self.nh

    def guarded(self, what, fn):
        try:
            return fn()
        except Exception as e:
            self.flag(False, 'edit: %s raised %s' % (what, drv.err(e)))

    def direct(self, at, o):
        """assign a plain property"""
        cid = cid_of(o)
        props = [(n, it) for n, (it, need) in self.sc.props(cid).items()
                 if it['op'] == 'fld' and n not in SELECTORS and it['t'] != 'ref' and wire.getprop(o, n) is not MISSING]
        if not props:
            return False
        n, it = self.rng.choice(props)
        w = self.g.scalar(it['t'])
        self.guarded('%s.%s =' % (cid, n), lambda: setattr(o, n, wire.to_py(it['t'], w, WEnv(self, o.root))))
        self.log('prop', at=at, n=n, v=w)
        return True

    def optional(self, at, o):
        """give the object an optional section it does not have"""
        cid = cid_of(o)
        gone = {}
        for n, (it, need) in self.sc.props(cid).items():
            if need and need[0][0] != '#' and wire.getprop(o, n) is MISSING:
                gone.setdefault(tuple(need), []).append((n, it))
        if not gone:
            return
        need = self.rng.choice(sorted(gone))
        for n, it in gone[need]:
            w = self.g.item(it, {}, None)
            self.guarded('%s.%s =' % (cid, n), lambda: setattr(o, n, wire.item_to_py(self.sc, it, w, {}, None, WEnv(self, o.root))))
            self.log('prop', at=at, n=n, v=w)

    def pin(self, at, o, nested):
        """what keeps a change inside the object: a marking edit before, or holding it"""
        if not nested:
            return
        if self.prof.get('release') or o is o.root.content:
            return
        if self.rng.random() < .5 and self.direct(at, o):
            return
        d = self.docno(o)
        if d in self.pins:
            self.pins[d].append(o)

    def pick_target(self, o):
        """(handle or 0) of an object the reference may be pointed at without making a cycle"""
        if self.rng.random() < .15:
            return 0
        mine = [h for h, x in self.hand.items() if x.root is o.root]
        if not mine or self.rng.random() < .3:
            d = self.docno(o)
            if self.rng.random() < .5:
                h = self.create(d)
            else:
                at, x = self.walk(-d)
                h = self.take(at, x)
        else:
            h = self.rng.choice(mine)
        if self.reaches(self.hand[h], o):
            return 0
        return h

    def edit(self, frm=None):
        # of a few objects, one of the class edited least so far
        some = [self.walk(frm) for _ in range(4)]
        at, o = min(some, key=lambda s: self.edited.get(cid_of(s[1]), 0))
        del some
        self.edited[cid_of(o)] = self.edited.get(cid_of(o), 0) + 1
        self.edit_at(at, o)

    def edit_at(self, at, o, kinds=None):
        locs = self.locs(o)
        if kinds:
            locs = [x for x in locs if x[0] in kinds]
        if self.rng.random() < .12:
            return self.optional(at, o)
        if not locs:
            return
        by = {}
        for x in locs:
            by.setdefault((x[0], len(x[1]) > 1, x[2] == 'ref' if x[0] == 'leaf' else 0), []).append(x)
        group = by[self.rng.choice(sorted(by, key=str))]
        if self.rng.random() < .6:
            # a place edited least so far
            def times(x):
                return self.counts.get('%s.%s %s' % (cid_of(o), '.'.join(str(s[1]) for s in x[1] if s[0] == 'p'), x[0]), 0)
            least = min(times(x) for x in group)
            group = [x for x in group if times(x) == least]
        kind, path, t, par = self.rng.choice(group)
        del group
        del by, locs
        self.edit_loc(at, o, kind, path, t)

    def edit_loc(self, at, o, kind, path, t):
        r = self.rng
        cid = cid_of(o)
        names = '.'.join(str(s[1]) for s in path if s[0] == 'p')
        nested = len(path) > 1 and cid not in ('ATTR', 'PRLS', 'TMCS')
        refs_list = self.sc.props(cid)[path[0][1]][0]['op'] == 'refs'
        if refs_list:
            nested = False
        x = o
        for s in path[:-1]:
            x = get(x, s)
        last = path[-1]
        if last == ['p', '#']:
            # the element of a list of plain values
            last = path[-2]
            x = o
            for s in path[:-2]:
                x = get(x, s)
        here = {'from': at['from'], 'steps': at['steps'] + path}
        what = '%s.%s' % (cid, names)
        env = WEnv(self, o.root)
        self.counts[what + ' ' + kind] = self.counts.get(what + ' ' + kind, 0) + 1
        if kind == 'leaf' and t == 'ref':
            h = self.pick_target(o)
            self.pin(at, o, nested)
            self.guarded(what + ' =', lambda: put(x, last, self.hand[h] if h else None))
            self.log('setref', at=here, h=h)
        elif kind == 'leaf' and t == 'mobid' and r.random() < .6:
            self.pin(at, o, True)
            m = self.value(o, path)
            k = r.choice([0, 5, 11, 12, 13, 14, 15, 16])
            if k < 12:
                b = [r.randrange(256)]
                lab = list(m.SMPTELabel)
                lab[k] = b[0]
                self.guarded(what, lambda: setattr(m, 'SMPTELabel', lab))
            elif k < 16:
                b = [r.randrange(256)]
                self.guarded(what, lambda: setattr(m, ['length', 'instanceHigh', 'instanceMid', 'instanceLow'][k - 12], b[0]))
            else:
                b = [r.randrange(256) for _ in range(16)]
                self.guarded(what, lambda: setattr(m, 'material', uuid.UUID(bytes=bytes(b))))
            self.log('splice', at=here, k=k, v=b)
        elif kind == 'leaf':
            w = self.g.scalar(t)
            self.pin(at, o, nested)
            self.guarded(what + ' =', lambda: put(x, last, wire.to_py(t, w, env)))
            self.log('set', at=here, v=w)
        elif kind == 'bytes':
            v = get(x, last)
            k = r.random()
            if len(v) and k < .6 and isinstance(v, bytearray):
                i, b = r.randrange(len(v)), r.randrange(256)
                self.pin(at, o, True)
                v[i] = b
                self.log('splice', at=here, k=i, v=[b])
            elif t['op'] != 'raw' and k < .8 and isinstance(v, bytearray):
                b = r.randrange(256)
                self.pin(at, o, True)
                v.append(b)
                self.log('ins', at=here, k=len(v) - 1, v=b)
            else:
                w = [r.randrange(256) for _ in range(len(v) if t['op'] == 'raw' else r.randrange(40))]
                self.pin(at, o, nested)
                self.guarded(what + ' =', lambda: put(x, last, bytearray(w)))
                self.log('set', at=here, v=w)
        elif kind == 'refs':
            v = get(x, last)
            k = r.random()
            if k < .45 or not len(v):
                h = self.pick_target(o)
                y = self.hand[h] if h else None
                i = r.choice([0, len(v), r.randrange(len(v) + 1)])
                if i == len(v) and r.random() < .6:
                    self.guarded(what + '.append', lambda: v.append(y))
                else:
                    self.guarded(what + '.insert', lambda: v.insert(i, y))
                self.log('insref', at=here, k=i, h=h)
            elif k < .7:
                i = r.randrange(len(v))
                if r.random() < .5:
                    self.guarded(what + '.pop', lambda: v.pop(i))
                else:
                    self.guarded('del ' + what, lambda: v.__delitem__(i))
                self.log('del', at=here, k=i)
            elif k < .8:
                self.guarded(what + '.reverse', lambda: v.reverse())
                self.log('rev', at=here)
            elif k < .88:
                self.guarded('del ' + what, lambda: v.__delitem__(slice(None)))
                self.log('clear', at=here)
            else:
                hs = [self.pick_target(o) for _ in range(r.randrange(4))]
                new = [self.hand[h] if h else None for h in hs]
                if cid in ('PRLS', 'TMCS') or r.random() < .5:
                    self.guarded(what + '[:] =', lambda: v.__setitem__(slice(None), new))
                else:
                    self.guarded(what + ' =', lambda: put(x, last, new))
                self.log('wholeref', at=here, hs=hs)
        elif kind == 'list':
            v = get(x, last)
            k = r.random()
            if cid == 'SLCT' and t['op'] == 'tracks' and k >= .55:
                k = .3
            self.pin(at, o, True)
            if k < .55 or not len(v):
                w, y = self.element(t, o)
                i = r.choice([0, len(v), r.randrange(len(v) + 1)])
                self.guarded(what, lambda: v.insert(i, y) if i < len(v) else v.append(y))
                self.log('ins', at=here, k=i, v=w)
            elif k < .85:
                i = r.randrange(len(v))
                self.guarded(what, lambda: v.__delitem__(i))
                self.log('del', at=here, k=i)
            else:
                self.guarded(what, lambda: v.reverse())
                self.log('rev', at=here)
        elif kind == 'attrs':
            keys = list(o.keys())
            k = r.random()
            if k < .3 and keys:
                key = r.choice(keys)
                if r.random() < .5:
                    self.guarded('del attribute', lambda: o.__delitem__(key))
                else:
                    self.guarded('pop attribute', lambda: o.pop(key))
                self.log('adel', at=here, k=list(key.encode('mac_roman')))
            elif k < .36:
                self.guarded('clear attributes', lambda: o.clear())
                self.log('clear', at=here)
            else:
                kb = list(r.choice(keys).encode('mac_roman')) if keys and r.random() < .4 else self.g.text(8)
                ty = r.randrange(1, 5)
                key = bytes(kb).decode('mac_roman')
                h, w = 0, []
                if ty == 1:
                    w = self.g.scalar('s32')
                    y = wire.to_py('s32', w, env)
                elif ty == 2:
                    w = self.g.text()
                    y = bytes(w).decode('mac_roman')
                elif ty == 4:
                    w = self.g.blob()
                    y = bytearray(w)
                else:
                    h = self.pick_target(o)
                    y = self.hand[h] if h else None
                self.guarded('set attribute', lambda: o.__setitem__(key, y))
                self.log('aset', at=here, k=kb, t=ty, v=w, h=h)

    def element(self, t, o):
        op = t['op']
        env = WEnv(self, o.root)
        if op in ('tracks', 'binitems', 'plugin1', 'fmtdesc', 'pixels', 'mpgfields'):
            w = []
            while not w:
                w = self.g.item(t, {}, None)
            w = w[:1]
            return w[0], wire.item_to_py(self.sc, t, w, {}, None, env)[0]
        if op == 'ints':
            w = self.g.scalar('s32')
            return w, wire.to_py('s32', w, env)
        par = {}
        vt = wire.getprop(o, 'value_type')
        if vt is not MISSING:
            par['value_type'] = wire.int_to_w(vt, 2, True)
        w = self.g.items(t['items'], par)
        return w, wire.shaped(self.sc, t['shape'], t['items'], w, par, env)

    def nested_released(self):
        """change something inside an object nobody keeps or changed before"""
        at, o = self.walk()
        cid = cid_of(o)
        self.edit_at(at, o, ('list', 'bytes', 'leaf'))

    def view(self, frm=None):
        if frm is None:
            frm = self.rng.choice([-d for d in sorted(self.f)] + sorted(self.hand)[:2])
        o = self.f[-frm].content if frm < 0 else self.hand[frm]
        try:
            nodes, nums, env = self.graph(o)
        except Stop:
            raise
        except Exception as e:
            self.flag(False, 'content: navigation fails: %s' % drv.err(e))
        self.log('view', **{'from': frm, 'nodes': nodes, 'root': 1, 'nums': nums})

    def same(self):
        """do two ways lead to one object"""
        d = self.rng.choice(sorted(self.f))
        kept = {id(o): o for o in self.hand.values() if o.root is self.f[d]}
        kept[0] = self.f[d].content
        kept = {id(o): o for o in kept.values()}
        self.flag(len(set(o.instance_id for o in kept.values())) == len(kept), 'identity: one number for two objects')
        at, o = self.walk(-d)
        if self.rng.random() < .5:
            keep = o
            del o
            # every other way to it, from the root
            ways = []
            self.ways(self.f[d].content, [], keep, ways, 0)
            if ways:
                b = self.rng.choice(ways)
                self.log('same', a=at, b={'from': -d, 'steps': b}, **{'is': True})
            else:
                self.flag(False, 'identity: an object held by the program is not the one navigation finds')
        else:
            bt, p = self.walk(d=d)
            self.log('same', a=at, b=bt, **{'is': p is o})

    def ways(self, o, steps, want, out, depth):
        if o is want:
            out.append(steps)
        if depth > 6 or len(out) > 4:
            return
        for p, x in self.refs_of(o):
            self.ways(x, steps + p + [['d']], want, out, depth + 1)

    def look(self):
        """navigation of every kind"""
        at, o = self.walk()
        self.look_at(o)

    QUIET = ('media_kind', 'mob_type', 'usage', 'length', 'mobs', 'is_picture', 'is_sound', 'start', 'path', 'mob', 'track',
             'frame_layout', 'name', 'wchar', 'clips', 'sub_items')
    CALLS = ('toplevel', 'compositionmobs', 'mastermobs', 'components', 'positions', 'dependant_mobs', 'all', 'picture_tracks')

    def look_at(self, o):
        for fn in (lambda: repr(o), lambda: str(o), lambda: list(o), lambda: len(o), lambda: o == o, lambda: hash(o) if False else None,
                   lambda: list(o.items()), lambda: list(o.values()), lambda: list(o.keys()),
                   lambda: o.get('name', None), lambda: list(o.property_data.items()),
                   lambda: [getattr(o, p.name, None) for p in o.propertydefs],
                   lambda: o.get_property_def('name'), lambda: o.index(None), lambda: None in o, lambda: o[:],
                   lambda: list(avb.core.walk_references(o)),
                   lambda: o.nearest_component_at_time(3), lambda: o.nearest_index_at_time(0),
                   lambda: o.value_at(1), lambda: o.nearest_index(2),
                   lambda: o.find_by_mob_id(None) if False else None):
            try:
                fn()
            except Exception:
                pass
        for n in self.QUIET:
            try:
                v = getattr(o, n)
                if not callable(v):
                    list(v) if hasattr(v, '__next__') else v
            except Exception:
                pass
        for n in self.CALLS:
            try:
                v = getattr(o, n)()
                if hasattr(v, '__next__'):
                    for _, x in zip(range(40), v):
                        pass
            except Exception:
                pass

    def restamp(self):
        f = self.f[self.rng.choice(sorted(self.f))]
        f.last_save = wire.EPOCH + datetime.timedelta(seconds=self.rng.choice(
            [0, 1, 951782400, 1500000000, 2 ** 31, 2 ** 32 - 1, self.rng.getrandbits(32)]))
        f.creator_version = bytes(self.rng.randrange(33, 256) for _ in range(self.rng.choice([0, 1, 12, 30]))).decode('mac_roman')

    def size(self, o, limit, seen=None):
        """size of the graph below unfolded into a tree"""
        n = 1
        for p, x in self.refs_of(o):
            n += self.size(x, limit - n)
            if n > limit:
                return n
        return n

    def copy(self, d=None, pick=None):
        at, o = pick or self.walk()
        if self.size(o, 30) > 30:
            return
        if d is None:
            here = [x for x in self.f if self.f[x] is o.root]
            away = [x for x in sorted(self.f) if x not in here]
            d = self.rng.choice(away) if away and self.rng.random() < .65 else here[0] if here else self.rng.choice(sorted(self.f))
        try:
            c = o.copy(self.f[d])
        except Exception as e:
            self.log('copy', at=at, h=0, d=d, nodes=[], root=0, err=str(drv.err(e)))
            raise Stop()
        nodes, nums, env = self.graph(c)
        a, b, env2 = self.graph(o)
        both = set(env.num) & set(env2.num)
        self.nh += 1
        self.hand[self.nh] = c
        self.log('copy', at=at, h=self.nh, d=d, nodes=nodes, root=1, alias=bool(both))
        return at, self.nh

    def copies(self):
        self.copy()

    def copyedit(self):
        """a copy, then every kind of change in place on one side of it"""
        r = self.rng
        d = r.choice(sorted(self.f))
        k = r.random()
        if k < .25:
            h = self.create(d, 'ATTR')
        elif k < .75:
            h = self.create(d, min(sorted(self.sc.classes), key=lambda x: (self.edited.get('copied ' + x, 0), r.random())))
        else:
            h = self.take(*self.walk(-d))
        cid = cid_of(self.hand[h])
        self.edited['copied ' + cid] = self.edited.get('copied ' + cid, 0) + 1
        c = self.copy(None, ({'from': h, 'steps': []}, self.hand[h]))
        if not c:
            return
        sides = [h, c[1]]
        r.shuffle(sides)
        top = sides[0]
        spots = [(p + [['d']], x) for p, x in r.sample(self.refs_of(self.hand[top]), min(2, len(self.refs_of(self.hand[top]))))]
        spots.append(([], self.hand[top]))
        for steps, x in spots:
            if x.root is not self.hand[top].root:
                continue
            done = set()
            for _ in range(12):
                todo = {}
                for kind, p, t, par in self.locs(x):
                    what = ('.'.join(str(s[1]) for s in p if s[0] == 'p'), kind)
                    if kind == 'leaf' and t != 'mobid' and len(p) == 1 or what in done:
                        continue
                    todo.setdefault(what, []).append((kind, p, t))
                if not todo:
                    break
                what = r.choice(sorted(todo))
                done.add(what)
                kind, p, t = r.choice(todo[what])
                del todo
                self.edit_loc({'from': top, 'steps': steps}, x, kind, p, t)
        del spots, x
        self.view(sides[1])
        self.view(top)

    def foreign(self):
        """hang an object of one document into the other"""
        d = self.rng.choice(sorted(self.f))
        other = [x for x in self.f if x != d]
        if not other:
            return
        spots = [(at, o, p) for at, o in [self.walk(-d) for _ in range(6)]
                 for k, p, t, par in self.locs(o) if k == 'leaf' and t == 'ref']
        if not spots:
            return
        at, o, p = self.rng.choice(spots)
        if self.rng.random() < .5:
            h = self.create(other[0])
        else:
            bt, x = self.walk(-other[0])
            h = self.take(bt, x)
        if self.reaches(self.hand[h], o):
            return
        cid = cid_of(o)
        nested = len(p) > 1 and cid not in ('ATTR', 'PRLS', 'TMCS')
        here = {'from': at['from'], 'steps': at['steps'] + p}
        old = self.value(o, p)
        ho = 0
        if old is not None:
            ho = self.take({'from': at['from'], 'steps': at['steps'] + p + [['d']]}, old)
        self.pins[d].append(o)
        x = self.value(o, p[:-1])
        self.guarded('foreign', lambda: put(x, p[-1], self.hand[h]))
        self.log('setref', at=here, h=h)
        self.save(d)
        if self.rng.random() < .35:
            # copied over instead
            if self.size(self.hand[h], 30) <= 30:
                c = self.copy(d, ({'from': h, 'steps': []}, self.hand[h]))
                if c:
                    ho = c[1]
        self.guarded('foreign', lambda: put(x, p[-1], self.hand[ho] if ho else None))
        self.log('setref', at=here, h=ho)
        self.save(d)

    # ---- names of stored codes -------------------------------------------
    NAMED = ('PRCL', 'PRIT', 'CMPO', 'SLCT', 'TRKG', 'SCLP', 'PRCL', 'PRIT')

    def some_named(self):
        d = self.rng.choice(sorted(self.f))
        if self.rng.random() < .6:
            c = self.all_of(d, *{self.rng.choice(self.NAMED) for _ in range(3)})
            if c:
                return self.rng.choice(c)
        return self.walk(-d)

    def names(self):
        at, o = self.some_named()
        self.names_of(at, o)

    def names_of(self, at, o):
        cid = cid_of(o)
        v = {}

        def ask(key, fn):
            try:
                x = fn()
            except Exception as e:
                self.flag(False, 'names: %s raised %s' % (key, drv.err(e)))
            v[key] = 'none' if x is None else x
        props = self.sc.props(cid)
        if 'media_kind_id' in props:
            ask('kind', lambda: o.media_kind)
        if cid == 'CMPO':
            ask('usage', lambda: o.usage)
            try:
                v['mobtype'] = o.mob_type
            except ValueError:
                v['mobtype'] = 'raises'
            except Exception as e:
                self.flag(False, 'names: mob type raised %s' % drv.err(e))
        if cid == 'PRCL':
            ask('interp', lambda: o.interp)
        if cid in ('PRCL', 'PRIT'):
            ask('vtype', lambda: o.value_type_name)
        if cid == 'PRIT':
            ask('param', lambda: o.parameter_name)
        if 'tracks' in props and 'media_kind_id' in props:
            ask('tracks', lambda: [[t.flags, t.media_kind or 'none'] for t in o.tracks])
        if cid == 'SLCT' and all(wire.getprop(t, 'component') is not MISSING for t in o.tracks):
            def parts():
                have = [t.component for t in o.tracks]
                return [next((k for k, y in enumerate(have) if y is x), -1) for x in o.components()]
            ask('parts', parts)
        if cid == 'PRCL':
            def points():
                out = []
                for p in o.control_points:
                    out.append({'names': [[q.name or 'none', q.type_name] for q in p.pp],
                                'byname': [[n, word(x)] for n, x in sorted(p.point_properties.items())],
                                'base': word(p.base_frame),
                                'tangents': [{'d': word(float(x)), 'w': whole(x)} for pair in p.tangents for x in pair]})
                return out
            ask('points', points)
        self.log('names', at=at, v=v)

    CODES = {'mob_type_id': [1, 2, 3], 'usage_code': [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 259], 'interp_kind': [2, 3, 5, 6, 1, 4, 258],
             'media_kind_id': [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 258]}

    def recode(self):
        """give an object another code, or a media kind by name"""
        at, o = self.some_named()
        cid, r = cid_of(o), self.rng
        props = self.sc.props(cid)
        can = [n for n in self.CODES if n in props]
        if cid == 'PRCL':
            can.append('pp')
        if cid == 'PRIT':
            can += ['uuid', 'value_type']
        if 'media_kind_id' in can:
            can.append('kind')
        if not can:
            return
        n = r.choice(can)
        env = WEnv(self, o.root)
        if n == 'kind':
            name = r.choice(sorted(self.KINDS, key=str) + ['Picture', 'unknown8', '', 'video', 'none'])
            if name in self.KINDS:
                self.guarded('media_kind =', lambda: setattr(o, 'media_kind', name))
                self.log('prop', at=at, n='media_kind_id', v=gen.be(self.KINDS[name], 2))
            else:
                try:
                    o.media_kind = name
                    ok = False
                except ValueError:
                    ok = True
                self.flag(ok, 'names: an unknown media kind was accepted')
        elif n == 'pp':
            pts = [(i, p) for i, p in enumerate(o.control_points) if len(p.pp)]
            if not pts:
                return
            i, p = r.choice(pts)
            k = r.randrange(len(p.pp))
            here = {'from': at['from'], 'steps': at['steps'] + [['p', 'control_points'], ['i', i], ['p', 'pp'], ['i', k], ['p', 'code']]}
            w = gen.be(r.choice([5, 6, 7, 8, 9, 14, 4, 10, 261]), 2)
            self.pin(at, o, True)
            p.pp[k].code = wire.to_py('s16', w, env)
            self.log('set', at=here, v=w)
        elif n == 'value_type':
            vt = r.choice([1, 2])
            w = gen.be(r.getrandbits(31), 4) if vt == 1 else word(r.choice([0.5, -3.0, 1e9]))
            o.value_type = vt
            o.value = wire.to_py('s32' if vt == 1 else 'double', w, env)
            self.log('prop', at=at, n='value_type', v=gen.be(vt, 2))
            self.log('prop', at=at, n='value', v=w)
        elif n == 'uuid':
            u = uuid.UUID(r.choice(self.prof['params']))
            if r.random() < .3:
                u = uuid.UUID(int=u.int ^ (1 << r.randrange(128)))
            o.uuid = u
            self.log('prop', at=at, n='uuid', v=list(u.bytes))
        else:
            t = props[n][0]['t']
            x = r.choice(self.CODES[n])
            if n == 'mob_type_id' and r.random() < .15:
                x = r.choice([0, 4, 7, 255])
            if n in ('usage_code', 'interp_kind') and r.random() < .1:
                x = r.choice([-1, 65536 + x, x - 2 ** 31])
            w = gen.be(x & (256 ** SIZES[t] - 1), SIZES[t])
            setattr(o, n, wire.to_py(t, w, env))
            self.log('prop', at=at, n=n, v=w)
        if n == 'kind' or r.random() < .7:
            self.names_of(at, o)

    # ---- bins, mobs and clips --------------------------------------------
    def place_of(self, d, mob):
        if mob is None:
            return -1
        for i, item in enumerate(self.f[d].content.items):
            if item.mob is mob:
                return i
        return -2

    def all_of(self, d, *cids):
        """[(at, object)] of the objects of some classes below the root"""
        out, seen = [], {}
        todo = [([], self.f[d].content)]
        while todo:
            steps, o = todo.pop(0)
            if id(o) in seen:
                continue
            seen[id(o)] = o
            if cid_of(o) in cids:
                out.append(({'from': -d, 'steps': steps}, o))
            todo += [(steps + p + [['d']], x) for p, x in self.refs_of(o)]
        return out

    def an_id(self):
        return list(self.rng.choice(self.prof['ids'])) if self.rng.random() < .9 else self.g.scalar('mobid')

    def findmob(self):
        d = self.rng.choice(sorted(self.f))
        w = self.an_id()
        env = WEnv(self, self.f[d])
        try:
            got = self.f[d].content.find_by_mob_id(wire.to_py('mobid', w, env))
        except Exception as e:
            self.flag(False, 'lookup: raised %s' % drv.err(e))
        self.log('findmob', d=d, id=w, got=self.place_of(d, got))

    def filters(self):
        d = self.rng.choice(sorted(self.f))
        b = self.f[d].content
        try:
            got = [[self.place_of(d, m) for m in q] for q in (b.mobs, b.compositionmobs(), b.mastermobs(), b.toplevel())]
        except Exception as e:
            self.flag(False, 'filters: raised %s' % drv.err(e))
        self.log('filters', d=d, mobs=got[0], comps=got[1], masters=got[2], top=got[3])

    def deps(self):
        d = self.rng.choice(sorted(self.f))
        mobs = self.all_of(d, 'CMPO')
        if not mobs:
            return
        at, m = self.rng.choice(mobs)
        del mobs
        try:
            got = []
            for x in m.dependant_mobs():
                got.append(self.place_of(d, x))
                if len(got) > 400:
                    self.flag(False, 'dependants: the enumeration does not end')
        except Stop:
            raise
        except Exception as e:
            self.flag(False, 'dependants: raised %s' % drv.err(e))
        self.log('deps', d=d, at=at, got=got)

    def clip(self):
        d = self.rng.choice(sorted(self.f))
        clips = self.all_of(d, 'SCLP')
        if not clips:
            return
        at, c = self.rng.choice(clips)
        del clips
        try:
            m, t, name = c.mob, c.track, c.media_kind
        except Exception as e:
            self.flag(False, 'clip: raised %s' % drv.err(e))
        gt = -1
        if t is not None:
            gt = -2
            for i, x in enumerate(m.tracks if m is not None else []):
                if x is t:
                    gt = i
        self.log('clip', d=d, at=at, mob=self.place_of(d, m), track=gt)
        self.log('kind', at=at, n=[] if name is None else [name])

    KINDS = {None: 0, 'picture': 1, 'sound': 2, 'timecode': 3, 'edgecode': 4, 'attribute': 5, 'effectdata': 6,
             'DescriptiveMetadata': 7, 'DataEssenceTrack': 16}

    def mobedit(self):
        """changes that matter to lookups"""
        r = self.rng
        d = r.choice(sorted(self.f))
        k = r.random()
        root = self.f[d].content
        env = WEnv(self, self.f[d])
        rootat = {'from': -d, 'steps': []}
        if k < .35:
            at, o = r.choice(self.all_of(d, r.choice(['CMPO', 'SCLP'])) or [(rootat, root)])
            if o is root:
                return
            if cid_of(o) == 'SCLP' and r.random() < .3:
                it = [t for kind, p, t, par in self.locs(o) if p == [['p', 'track_id']]]
                w = gen.be(r.randrange(4), 2)
                o.track_id = wire.to_py('s16', w, env)
                return self.log('prop', at=at, n='track_id', v=w)
            if r.random() < .5 and wire.getprop(o, 'mob_id') is not MISSING:
                # inside the id: towards another id of the pool
                self.pins[d].append(o)
                want = self.an_id()
                have = wire.mobid_wire(o.mob_id)
                i = [j for j in range(32) if have[j] != want[j]]
                if not i:
                    return
                i = r.choice(i)
                if i < 12:
                    lab = list(o.mob_id.SMPTELabel)
                    lab[i] = want[i]
                    o.mob_id.SMPTELabel = lab
                    b = [want[i]]
                elif i < 16:
                    setattr(o.mob_id, ['length', 'instanceHigh', 'instanceMid', 'instanceLow'][i - 12], want[i])
                    b = [want[i]]
                else:
                    i, b = 16, want[16:]
                    o.mob_id.material = uuid.UUID(bytes=bytes(b))
                return self.log('splice', at={'from': -d, 'steps': at['steps'] + [['p', 'mob_id']]}, k=i, v=b)
            w = self.an_id()
            o.mob_id = wire.to_py('mobid', w, env)
            self.log('prop', at=at, n='mob_id', v=w)
        elif k < .55:
            at, o = r.choice(self.all_of(d, 'CMPO') or [(rootat, root)])
            if o is root:
                return
            if r.random() < .5:
                w = [r.choice([1, 2, 3])]
                o.mob_type_id = w[0]
                self.log('prop', at=at, n='mob_type_id', v=w)
            else:
                w = gen.be(r.choice([0, 0, 1, 2, 256, 1 << 16, 1 << 24]), 4)
                o.usage_code = wire.to_py('s32', w, env)
                self.log('prop', at=at, n='usage_code', v=w)
        elif k < .8:
            # the bin's items
            items = {'from': -d, 'steps': [['p', 'items']]}
            n = len(root.items)
            how = r.choice(['add', 'add', 'ins', 'del', 'replace', 'rev'])
            if how in ('add', 'ins', 'replace'):
                mobs = self.all_of(d, 'CMPO')
                mine = [h for h, o in self.hand.items() if o.root is self.f[d] and cid_of(o) == 'CMPO']
                if mine and r.random() < .6:
                    h = r.choice(mine)
                elif mobs and r.random() < .6:
                    at, o = r.choice(mobs)
                    h = self.take(at, o)
                else:
                    h = self.create(d, 'CMPO')
                    o = self.hand[h]
                    w = [r.choice([1, 2, 3])]
                    o.mob_type_id = w[0]
                    self.log('prop', at={'from': h, 'steps': []}, n='mob_type_id', v=w)
                    w = self.an_id()
                    o.mob_id = wire.to_py('mobid', w, env)
                    self.log('prop', at={'from': h, 'steps': []}, n='mob_id', v=w)
            if how == 'add':
                item = root.add_mob(self.hand[h])
                new = {'mob': [0, 0, 0, 0]}
                for s in self.sc.binitem:
                    if s.get('n') and s['n'] != 'mob':
                        new[s['n']] = wire.unitem(self.sc, s, wire.getprop(item, s['n']), item, env) if hasattr(wire, 'unitem') \
                            else wire.from_py(s['t'], wire.getprop(item, s['n']), env)
                self.log('ins', at=items, k=n, v=new)
                self.log('setref', at={'from': -d, 'steps': [['p', 'items'], ['i', n], ['p', 'mob']]}, h=h)
            elif how == 'ins':
                w, y = self.element({'op': 'binitems'}, root)
                w['mob'] = [0, 0, 0, 0]
                y.mob = self.hand[h]
                i = r.randrange(n + 1)
                root.items.insert(i, y)
                self.log('ins', at=items, k=i, v=w)
                self.log('setref', at={'from': -d, 'steps': [['p', 'items'], ['i', i], ['p', 'mob']]}, h=h)
            elif not n:
                return
            elif how == 'replace':
                i = r.randrange(n)
                root.items[i].mob = self.hand[h]
                self.log('setref', at={'from': -d, 'steps': [['p', 'items'], ['i', i], ['p', 'mob']]}, h=h)
            elif how == 'del':
                i = r.randrange(n)
                del root.items[i]
                self.log('del', at=items, k=i)
            else:
                root.items.reverse()
                self.log('rev', at=items)
        else:
            clips = self.all_of(d, r.choice(['SCLP', 'FILL', 'TCCP']))
            if not clips:
                return
            at, o = r.choice(clips)
            if r.random() < .4:
                w = gen.be(r.choice([r.randrange(20), r.getrandbits(16)]), 2)
                o.media_kind_id = wire.to_py('s16', w, env)
                self.log('prop', at=at, n='media_kind_id', v=w)
                return self.log('kind', at=at, n=[] if o.media_kind is None else [o.media_kind])
            name = r.choice(sorted(self.KINDS, key=str))
            self.guarded('media_kind =', lambda: setattr(o, 'media_kind', name))
            self.log('prop', at=at, n='media_kind_id', v=gen.be(self.KINDS[name], 2))
            self.log('kind', at=at, n=[] if o.media_kind is None else [o.media_kind])

    BAD = {'s16': 70000, 'u16': -1, 's32': 2 ** 40, 'u32': -5, 's8': 1000, 'u8': 300, 'u64': -1, 's64': 2 ** 70,
           'str': u'\u65e5', 'nstr': u'\u65e5', 'pstr': u'\u65e5', 'uuid': u'x', 'fourcc': b'abcde', 'double': u'x',
           'time': datetime.datetime(1960, 1, 1), 'exp10': u'x'}

    def spoil(self):
        """a value no file can hold somewhere, a save that fails, the value put back"""
        d = self.rng.choice(sorted(self.f))
        spots = [(at, o, p, t) for at, o in [self.walk(-d) for _ in range(6)]
                 for k, p, t, par in self.locs(o) if k == 'leaf' and t in self.BAD and t != 'ref' and p[-1] != ['p', '#']
                 and not (cid_of(o) == 'ATTR')]
        if not spots:
            return
        at, o, p, t = self.rng.choice(spots)
        self.pins[d].append(o)
        x = self.value(o, p[:-1])
        old = get(x, p[-1])
        if t == 'u8' and isinstance(old, bool):
            return
        try:
            put(x, p[-1], self.BAD[t])
        except Exception:
            return
        self.log('spoil', at=at, on=True)
        self.save(d)
        if self.rng.random() < .5:
            self.view(-d)
        put(x, p[-1], old)
        self.log('spoil', at=at, on=False)
        self.save(d)

    def save(self, d=None):
        d = d or self.rng.choice(sorted(self.f))
        f = self.f[d]
        r = self.rng
        bo = r.choice(['little', 'big']) if not self.ext else 'little'
        self.n += 1
        p = os.path.join(self.work, 's%d-%d.avb' % (d, self.n))
        over = self.path[d] and self.prof.get('over', .1) > r.random()
        if over:
            p = self.path[d]
        elif r.random() < .2:
            with open(p, 'wb') as fh:
                fh.write(b'old contents of the target')
        ev = dict(d=d, bo=bo, **self.stamp(f))
        source = self.path[d]
        before = slurp(source) if source else None
        try:
            f.write(p, byte_order=bo)
        except Exception as e:
            ev['err'] = str(drv.err(e))
            for n in ('when', 'creator'):
                ev.pop(n)
            if os.path.exists(p):
                with open(p, 'rb') as fh:
                    left = fh.read()
                ev['left'] = list(left)
                self.log('save', **ev)
                self.flag(not opens(p, self.ext), 'failure: what a failed save left opens as a document')
            else:
                self.log('save', **ev)
            if source and not over:
                self.flag(slurp(source) == before, 'source: a failed save changed the opened file')
            if over:
                self.path[d] = None
            return None
        with open(p, 'rb') as fh:
            data = fh.read()
        ev['bytes'] = list(data)
        self.log('save', **ev)
        self.saved[d] = (p, data)
        if over:
            self.path[d] = p
        elif source:
            self.flag(slurp(source) == before, 'source: saving elsewhere changed the opened file')
        if r.random() < self.prof.get('again', .15):
            self.again(f, p, data, bo)
        return p

    def again(self, f, p, data, bo):
        def write(g, order):
            self.n += 1
            q = os.path.join(self.work, 'a%d.avb' % self.n)
            try:
                g.write(q, byte_order=order)
            except Exception as e:
                self.flag(False, 'repeat: the second save fails: %s' % drv.err(e))
            with open(q, 'rb') as fh:
                return q, fh.read()
        other = 'big' if bo == 'little' else 'little'
        self.flag(write(f, bo)[1] == data, 'repeat: saving twice gives different files')
        g = avb.open(p, use_ext=self.ext)
        k = self.rng.randrange(3)
        if k != 1:
            self.flag(write(g, bo)[1] == data, 'repeat: saving the reopened file gives another file')
        if k != 0:
            q, b = write(g, other)
            h = avb.open(q)
            self.flag(write(h, bo)[1] == data, 'repeat: converting to the other byte order and back gives another file')
            self.flag(write(h, other)[1] == b, 'repeat: saving the reopened file gives another file')
            h.close()
        self.flag(write(f, bo)[1] == data, 'repeat: saving again gives another file')
        g.close()

    def reopen(self, d=None):
        d = d or self.rng.choice(sorted(self.f))
        self.n += 1
        if self.save(d) is None:
            return
        p, data = self.saved[d]
        self.close(d)
        self.open(d, p)

    def reclaim(self, d):
        """objects only looked at go away"""
        f = self.f[d]
        env = self.graph(f.content)[2]
        root = f.content
        keep = set(id(o) for o in self.hand.values()) | set([id(root)])
        refs = []
        for o in env.queue:
            if id(o) not in keep:
                refs.append((cid_of(o), weakref.ref(o)))
        o = None
        del env
        gc.collect()
        gc.collect()
        gc.collect()
        left = sorted(set(c for c, r in refs if r() is not None))
        self.flag(not left, 'memory: objects that were only looked at stay in memory: %s' % left)

    def run(self, start):
        """start: {doc: path or None}"""
        try:
            for d, p in sorted(start.items()):
                if p is None:
                    self.new(int(d))
                else:
                    with open(p, 'rb') as fh:
                        self.open(int(d), p, list(fh.read()))
            script = self.prof['script']
            if isinstance(script, dict):
                names = sorted(script)
                for _ in range(self.prof['steps']):
                    getattr(self, self.rng.choices(names, [script[n] for n in names])[0])()
            else:
                for s in script:
                    if isinstance(s, list):
                        getattr(self, s[0])(*s[1:])
                    else:
                        getattr(self, s)()
            if self.prof.get('end', True):
                for d in sorted(self.f):
                    self.view(-d)
                    self.save(d)
            for d in sorted(self.f):
                if self.rng.random() < .5:
                    # closed while there are changes
                    for _ in range(3):
                        at, o = self.walk(-d)
                        if self.direct(at, o):
                            break
                    del o
                self.close(d)
        except Stop:
            pass
        for d in list(self.f):
            try:
                self.f.pop(d).close()
            except Exception:
                pass
        return {'ev': self.ev, 'counts': self.counts}


SIZES = {'u8': 1, 's8': 1, 's16': 2, 'u16': 2, 's32': 4, 'u32': 4}


def word(x):
    """a number as the format holds it"""
    if isinstance(x, float):
        return list(struct.pack('>d', x))
    return gen.be(int(x) & 0xffffffff, 4)


def whole(x):
    x = float(x)
    if x == x and -2 ** 31 <= x < 2 ** 31 and x == int(x):
        return gen.be(int(x) & 0xffffffff, 4)
    return word(x)


def opens(p, ext):
    try:
        avb.open(p, use_ext=ext).close()
        return True
    except Exception:
        return False


def slurp(p):
    with open(p, 'rb') as fh:
        return fh.read()


def held_open(path):
    me = '/proc/self/fd'
    try:
        for n in os.listdir(me):
            try:
                if os.path.realpath(os.path.join(me, n)) == os.path.realpath(path):
                    return True
            except OSError:
                pass
    except OSError:
        pass
    return False


def main(job, work):
    sc = wire.Schema(job['schema'])
    out, edited = [], {}
    for t in job['traces']:
        w = os.path.join(work, 't%d' % len(out))
        os.makedirs(w)
        start = {}
        for d, p in t['start'].items():
            if p is None:
                start[d] = None
            else:
                # its own copy
                q = os.path.join(w, 'in%s.avb' % d)
                with open(p, 'rb') as a, open(q, 'wb') as b:
                    b.write(a.read())
                start[d] = q
        tr = Trace(sc, t['seed'], w, t['prof'])
        tr.edited = edited
        out.append(tr.run(start))
        del tr
        import shutil
        shutil.rmtree(w)
    return out


if __name__ == '__main__':
    drv.run(main)
