"""Driver: assign one value somewhere in a saved-able object, try to save."""
import os
import avbfile, drv, wire, avb
from drv_wire import new_doc

MISSING = wire.MISSING


def py_value(d, old, env):
    k = d[0]
    if k == 'int':
        return int(d[1])
    if k == 'text':
        return ''.join(chr(x) for x in d[1])
    if k == 'run':
        return chr(d[1]) * d[2]
    if k == 'bytes':
        return bytes.fromhex(d[1])
    if k == 'float':
        return float(d[1])
    if k == 'time':
        import datetime
        return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=d[1])
    if k == 'blob':
        return bytearray(d[1])
    if k == 'resize':
        n = d[1]
        if len(old) >= n:
            return list(old)[:n]
        old = list(old)
        return old + [old[-1]] * (n - len(old))
    if k == 'junk':
        return {'text': 'x', 'none': None, 'float': 1.5, 'int': 5, 'object': object()}[d[1]]
    raise KeyError(k)


def get(x, step):
    kind, n = step
    if kind == 'i':
        return x[n]
    if isinstance(x, dict):
        return x[n]
    if isinstance(n, str) and n[:1] == '#':
        return x[int(n[1:])] if n[1:] else x
    return wire.getprop(x, n)


def put(x, step, v):
    """-> undo"""
    kind, n = step
    if kind == 'p' and n[:1] == '#':
        kind, n = 'i', int(n[1:])
    if kind == 'i' or (isinstance(x, dict) and not hasattr(x, 'class_id')):
        old = x[n]
        x[n] = v

        def undo():
            x[n] = old
        return undo
    old = wire.getprop(x, n)
    if isinstance(old, avb.core.AVBRefList) and isinstance(v, list):
        had = list(old)
        old[:] = v

        def undo():
            old[:] = had
        return undo
    setattr(x, n, v)

    def undo():
        setattr(x, n, old)
    return undo


def apply(sc, cid, o, path, d, env):
    if cid == 'ATTR':
        pos = path[1][1]
        keys = list(o.keys())
        k = keys[pos]
        if path[2][1] == 'v':
            return put(o, ['i', k], py_value(d, None, env))
        v = o[k]
        had = list(o.items())
        o.clear()
        for i, (a, b) in enumerate(had):
            o[py_value(d, None, env) if i == pos else a] = b

        def undo():
            o.clear()
            for a, b in had:
                o[a] = b
        return undo
    if cid in ('PRLS', 'TMCS') and path[0][1] == 'items':
        if len(path) == 1 and d[0] == 'resize':
            had = list(o)
            o[:] = py_value(d, had, env)

            def undo():
                o[:] = had
            return undo
        return put(o, path[1], py_value(d, None, env))
    if d[0] == 'drop':
        n = path[0][1]
        old = o.property_data[n]
        del o.property_data[n]

        def undo():
            o.property_data[n] = old
        return undo
    x = o
    steps = [s for s in path]
    if steps[-1] == ['p', '#']:
        steps = steps[:-1]
    for s in steps[:-1]:
        x = get(x, s)
    return put(x, steps[-1], py_value(d, get(x, steps[-1]) if d[0] == 'resize' else None, env))


def work_on(sc, g, nleaf, work):
    try:
        f, env, keep = new_doc(sc, nleaf, [(0, {'cid': g['cid'], 'rec': g['rec']})])
        if keep[0][2]:
            return {'build': keep[0][2]}
        o = keep[0][1]
        p = os.path.join(work, 'v.avb')
        f.write(p)
    except Exception as e:
        return {'build': drv.err(e)}
    out = []
    for t in g['trials']:
        if t['py'][0] == 'drop' and g['cid'] in ('ATTR', 'PRLS', 'TMCS'):
            out.append(None)
            continue
        try:
            undo = apply(sc, g['cid'], o, t['path'], t['py'], env)
        except (IndexError, AttributeError, KeyError, ValueError, TypeError, OverflowError) as e:
            out.append({'err': drv.err(e), 'at': 'set'})
            # a setter may refuse: the object has to be as before
            continue
        try:
            f.write(p, byte_order=t['bo'])
        except Exception as e:
            out.append({'err': drv.err(e), 'at': 'save'})
        else:
            try:
                with open(p, 'rb') as fh:
                    d = avbfile.parse(fh.read())
                leaf, where = {}, None
                for j, (cid, b) in enumerate(d['chunks'], 1):
                    if cid == 'ATTR':
                        try:
                            a = avbfile.parse_attr(d['bo'], b)
                        except Exception:
                            continue
                        if list(a) == ['id']:
                            leaf[a['id'][1]] = j
                        if list(a) == ['o0']:
                            where = a['o0'][1]
                out.append({'bytes': d['chunks'][where - 1][1].hex() if where and t['py'][0] not in ('run', 'blob', 'resize') else '', 'leaf': leaf, 'nobj': len(d['chunks'])})
            except avbfile.BadFile as e:
                out.append({'bytes': '', 'leaf': {}, 'bad': str(e)})
        undo()
    return {'out': out}


def main(job, work):
    sc = wire.Schema(job['schema'])
    return [work_on(sc, g, job['nleaf'], work) for g in job['groups']]


if __name__ == '__main__':
    drv.run(main)
