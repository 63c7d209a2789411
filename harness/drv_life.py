"""Driver: the actions of AvbLife on a small document, and what a program sees after each."""
import gc, os, shutil, weakref
import drv, avb

TOP = {'a': u'a', 'b': u'b', 'ax': u'a', 'bx': u'b'}


def cid(o):
    return bytes(o.class_id).decode('latin1')


def get_v(o):
    return o[u'v'] if cid(o) == 'ATTR' else o.media_kind_id if cid(o) == 'SEQU' else o.length


def set_v(o, v):
    if cid(o) == 'ATTR':
        o[u'v'] = v
    elif cid(o) == 'SEQU':
        o.media_kind_id = v
    else:
        o.length = v


def get_b(o):
    c = cid(o)
    return (o[u'b'][0] if c == 'ATTR' else o.mob_id.instanceHigh if c == 'SCLP' else o.tracks[0].index if c == 'CMPO' else
            o.control_points[0].timescale if c == 'PRCL' else int(o.name))


def set_b(o, v):
    c = cid(o)
    if c == 'ATTR':
        o[u'b'][0] = v
    elif c == 'SCLP':
        o.mob_id.instanceHigh = v
    elif c == 'CMPO':
        o.tracks[0].index = v
    elif c == 'PRCL':
        o.control_points[0].timescale = v
    else:
        o.name = u'%d' % v


def get_x(o):
    c = cid(o)
    return o[u'x'] if c == 'ATTR' else o.attributes if c != 'SEQU' else o.components[0] if len(o.components) else None


def set_x(o, x):
    c = cid(o)
    if c == 'ATTR':
        o[u'x'] = x
    elif c != 'SEQU':
        o.attributes = x
    elif x is None:
        del o.components[:]
    elif len(o.components):
        o.components[0] = x
    else:
        o.components.append(x)


def make(f, c):
    if c == 'ATTR':
        o = f.create.Attributes()
        o[u'v'], o[u'b'], o[u'x'] = 0, bytearray(b'\0'), None
        return o
    if c == 'SEQU':
        o = f.create.Sequence()
    elif c == 'SCLP':
        o = f.create.SourceClip()
        o.mob_id = avb.mobid.MobID()
        o.track_id, o.start_time = 1, 0
    elif c == 'CMPO':
        o = f.create.Composition(u'made')
        t = f.create.Track()
        t.index = 0
        o.tracks.append(t)
    else:
        o = f.create.ParamClip()
        o.interp_kind, o.value_type, o.extrap_kind, o.fields = 2, 1, 1, 0
        p = f.create.ParamControlPoint()
        p.offset = [0, 1]
        p.timescale, p.value, p.pp = 0, 0, []
        o.control_points = [p]
    set_v(o, 0)
    if c == 'SEQU':
        set_b(o, 0)
    o.attributes = None
    return o


def tree(f):
    h = f.content.attributes
    seen, ats = [], {}
    tops = []
    for k in (u'a', u'b'):
        o = h[k]
        tops.append(o)
        while o is not None and id(o) not in ats:
            seen.append(o)
            ats[id(o)] = len(seen)
            o = get_x(o)

    def at(o):
        return 0 if o is None else ats.get(id(o), -1)
    return {'nodes': [[get_v(o), get_b(o), at(get_x(o))] for o in seen], 'tops': [at(o) for o in tops]}


def face(o):
    return [] if o is None else [get_v(o), get_b(o), 0 if get_x(o) is None else 1]


class Life(object):
    def __init__(self, c, work):
        self.c, self.work, self.n = c, work, 0
        self.made = list(c['made'])
        p = os.path.join(work, 'start.avb')
        shutil.copyfile(c['path'], p)
        self.open(p)
        self.refs = []

    def open(self, p):
        self.f = avb.open(p)
        self.path = p
        self.vars = {1: None, 2: None}
        self.count = len(list(self.f.chunks())) - 1
        with open(p, 'rb') as fh:
            self.data = fh.read()

    def write(self):
        self.n += 1
        p = os.path.join(self.work, 'w%d.avb' % self.n)
        self.f.write(p, byte_order='big' if self.n % 2 else 'little')
        return p

    def step(self, a, g):
        op, i, k = a['op'], a['i'], a['k']
        v = self.vars
        out = None
        if op == 'get':
            o = self.f.content.attributes[TOP[k]]
            v[i] = out = o if k == TOP[k] else get_x(o)
        elif op == 'step':
            v[i] = out = get_x(v[i])
        elif op == 'drop':
            v[i] = None
        elif op == 'set':
            set_v(v[i], 1 - get_v(v[i]))
        elif op == 'nest':
            set_b(v[i], 1 - get_b(v[i]))
        elif op == 'ref':
            set_x(v[i], None if k == '0' else v[int(k)])
        elif op == 'new':
            self.made.append(self.made.pop(0))
            v[i] = out = make(self.f, self.made[0])
            g['nums'] = out.instance_id <= self.count
        elif op == 'copy':
            v[3 - i] = out = v[i].copy(self.f)
            g['nums'] = out.instance_id <= self.count
        elif op == 'hub':
            self.f.content.attributes[TOP[k]] = v[i]
        elif op == 'reopen':
            p = self.write()
            self.f.close()
            self.vars = v = {1: None, 2: None}
            self.open(p)
        elif op == 'save':
            p = self.write()
            f = avb.open(p)
            g['file'] = tree(f)
            f.close()
            with open(self.path, 'rb') as fh:
                g['source'] = fh.read() != self.data
        elif op == 'over':
            self.f.write(self.path)
            with open(self.path, 'rb') as fh:
                self.data = fh.read()
            f = avb.open(self.path)
            g['file'] = tree(f)
            f.close()
        elif op == 'fail':
            try:
                self.f.write(os.path.join(self.work, 'none', 'x.avb'))
                raise ValueError('a save to nowhere succeeded')
            except EnvironmentError:
                pass
        elif op == 'gc':
            gc.collect()
        elif op == 'look':
            g['view'] = tree(self.f)
            for o in v.values():
                repr(o), o == None  # noqa
        self.refs.append(None if out is None else weakref.ref(out))
        g['vars'] = [face(v[1]), face(v[2])]
        if v[1] is not None and v[2] is not None:
            g['same'] = v[1] is v[2]
            if v[1] is not v[2]:
                g['nums'] = g.get('nums', False) or v[1].instance_id == v[2].instance_id
        return g


def case(c, work):
    w = Life(c, work)
    got = []
    for a in c['acts']:
        g = {}
        got.append(g)
        try:
            w.step(a, g)
        except Exception as e:
            g.update(drv.err(e))
            break
    try:
        w.vars.clear()
        gc.collect()
        alive = [i + 1 for i, r in enumerate(w.refs) if r is not None and r() is not None]
    finally:
        w.f.close()
    for n in os.listdir(work):
        os.remove(os.path.join(work, n))
    return {'got': got, 'alive': alive}


def main(job, work):
    w = os.path.join(work, 'life')
    os.makedirs(w)
    out = []
    for c in job['cases']:
        try:
            out.append(case(c, w))
        except Exception as e:
            out.append(drv.err(e))
    return out


if __name__ == '__main__':
    drv.run(main)
