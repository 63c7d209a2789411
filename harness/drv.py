"""Common part of the drivers (they import the code under test)."""
import sys, json, traceback
import avb, avb.utils, avb.core, avb.mobid
import wire


class Env(object):
    """bridge between wire references and objects of one document"""

    def __init__(self, f, objs=None):
        self.f = f
        self.objs = objs or {}
        self.ids = dict((id(o), n) for n, o in self.objs.items())

    def create(self, name):
        return getattr(self.f.create, name)()

    def drop(self, o, n):
        pd = getattr(o, 'property_data', None)
        if pd is not None and n in pd:
            del pd[n]

    def reflist(self, owner):
        return avb.core.AVBRefList.__new__(avb.core.AVBRefList, root=self.f, parent=owner)

    def obj(self, n):
        return None if n == 0 else self.objs[n]

    def ref(self, o):
        if o is None:
            return 0
        n = self.ids.get(id(o))
        if n is not None:
            return n
        return self.identify(o)

    def identify(self, o):
        """objects of read files: leaves carry their number"""
        v = o.get('id', None) if hasattr(o, 'items') else None
        if not isinstance(v, int):
            raise wire.Bad('a %s where a marked leaf was expected' % type(o).__name__)
        return v

    def mobid(self, w):
        import uuid
        m = avb.mobid.MobID()
        m.SMPTELabel = w[:12]
        m.length, m.instanceHigh, m.instanceMid, m.instanceLow = w[12:16]
        m.material = uuid.UUID(bytes=bytes(w[16:]))
        return m


def err(e):
    return {'err': type(e).__name__, 'msg': str(e)[:300]}


def run(fn):
    import io, contextlib
    with open(sys.argv[1]) as fh:
        job = json.load(fh)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        res = fn(job, sys.argv[3])
    with open(sys.argv[2] + '.tmp', 'w') as fh:
        json.dump(res, fh)
    import os
    os.rename(sys.argv[2] + '.tmp', sys.argv[2])
