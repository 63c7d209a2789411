"""Driver: objects of the real code created and edited, everything shown after every step."""
import datetime, gc
import drv, avb
from avb.mobid import MobID


class World(object):
    def __init__(self):
        self.docs = [avb.open(), avb.open()]
        self.regs = [None] * 4 + [f.content for f in self.docs]
        self.numbers = []

    def show(self, v):
        if v is None:
            return ['none']
        if isinstance(v, bool):
            return ['bool', v]
        if isinstance(v, int):
            return ['int', v] if abs(v) < 2 ** 31 - 1 else ['big', str(v)]
        if isinstance(v, str):
            return ['text', v]
        if isinstance(v, (bytes, bytearray)):
            return ['bytes', list(bytearray(v))]
        if isinstance(v, datetime.datetime):
            return ['date', str(v)]
        if isinstance(v, MobID):
            return ['mobid', list(bytearray(v.bytes_le))]
        if isinstance(v, dict) and not hasattr(v, 'root'):
            return ['dict', [[k, self.show(x)] for k, x in v.items()]]
        if isinstance(v, list) and not getattr(v, 'root', None):
            return ['list', [self.show(x) for x in v]]
        d = [j for j, f in enumerate(self.docs, 1) if v.root is f]
        out = {'class': type(v).__name__, 'doc': d[0] if d else 0}
        if getattr(v, 'instance_id', None) is not None:
            self.numbers.append([out['doc'], v.instance_id])
        if isinstance(v, list):
            out['items'] = ['list', [self.show(x) for x in v]]
        elif hasattr(v, 'property_data'):
            for k, x in v.property_data.items():
                out[k] = self.show(x)
        else:
            out['items'] = ['dict', [[k, self.show(x)] for k, x in v.items()]]
        return ['obj', out]

    def all(self):
        self.numbers = []
        r = [self.show(v) for v in self.regs]
        return {'regs': r, 'numbers': self.numbers}

    def value(self, w):
        t = w[0]
        return None if t == 'none' else w[1] if t in ('int', 'bool', 'text') else bytearray(w[1]) if t == 'bytes' else \
            [self.value(x) for x in w[1]] if t == 'list' else dict((k, self.value(x)) for k, x in w[1])

    def place(self, v, p):
        if p['at'] == 'prop':
            return v if p['s'] == 'items' and not hasattr(v, 'property_data') else getattr(v, p['s'])
        return v[p['n'] - 1] if p['at'] == 'place' else v[p['s']]

    def edit(self, e):
        v = self.regs[e['r'] - 1]
        path = e['path']
        if e['how'] == 'put':
            for p in path[:-1]:
                v = self.place(v, p)
            p, x = path[-1], self.value(e['v'])
            if p['at'] == 'prop':
                setattr(v, p['s'], x)
            else:
                v[p['n'] - 1 if p['at'] == 'place' else p['s']] = x
            return
        for p in path:
            v = self.place(v, p)
        if e['how'] == 'append':
            v.append(self.value(e['v']))
        elif e['how'] == 'drop':
            v.pop()
        elif e['how'] == 'byte':
            if e['n'] == 13:
                v.length = e['b']
            elif e['n'] == 16:
                v.instanceLow = e['b']
            else:
                v.bytes_le[e['n'] - 1] = e['b']

    def args(self, a):
        a = dict(a)
        if a.get('media_kind') == 'nothing':
            a['media_kind'] = None
        return a

    def create(self, e):
        make = getattr(self.docs[e['doc'] - 1].create, e['class'])
        a = self.args(e['args'])
        inner = e.get('inner')
        if inner and e['when'] == 'between':
            # the factory function is fetched first, called later
            self.create(inner)
        elif inner:
            def go(x):
                self.create(inner)
                return x
            if e['when'] == 'first':
                # the arguments are evaluated after the function was looked up
                if 'edit_rate' in a:
                    o = make(go(a.pop('edit_rate')), **a)
                else:
                    o = make(**go(a))
                return self.keep(e, o)
            try:
                k = sorted(a)[0]
                o = make(**dict(a, **{k: go(a[k])}))
            except IndexError:
                o = make(*go(()))
            return self.keep(e, o)
        if e.get('positional') and a:
            names = ['name', 'mob_type'] if e['class'] == 'Composition' else ['edit_rate', 'media_kind']
            if list(names[:len(a)]) == [n for n in names if n in a]:
                return self.keep(e, make(*[a[n] for n in names if n in a]))
        self.keep(e, make(**a))

    def keep(self, e, o):
        self.regs[e['r'] - 1] = o

    def step(self, e):
        if e['op'] == 'create':
            self.create(e)
        elif e['op'] == 'edit':
            self.edit(e)
        elif e['op'] == 'bad':
            try:
                getattr(self.docs[e['doc'] - 1].create, e['class'])(**e['args'])
            except (ValueError, TypeError):
                return True
        return False


def body(job, work):
    res = []
    for c in job['cases']:
        gc.collect(0)
        w = World()
        try:
            out = {'start': w.all()['regs'], 'obs': []}
            for e in c['ops']:
                r = w.step(e)
                out['obs'].append(dict(w.all(), refused=r))
            res.append(out)
        except Exception as x:
            res.append(dict(drv.err(x), at=len(out.get('obs', []))))
    return res


drv.run(body)
