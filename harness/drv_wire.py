"""Driver: build and write documents / read objects of files."""
import collections, io, os
import drv, wire, avb, avb.file


def new_doc(sc, nleaf, objs):
    f = avb.open()
    env = drv.Env(f)
    leaves = f.create.Attributes()
    f.content.attributes['leaves'] = leaves
    for n in range(1, nleaf + 1):
        a = f.create.Attributes()
        a['id'] = n
        leaves['l%d' % n] = a
        env.objs[n] = a
        env.ids[id(a)] = n
    keep = []
    holder = f.create.Attributes()
    f.content.attributes['objects'] = holder
    for i, o in objs:
        try:
            x = wire.build(sc, o['cid'], o['rec'], env)
        except Exception as e:
            keep.append((i, None, drv.err(e)))
            continue
        keep.append((i, x, None))
        holder['o%d' % i] = x
    return f, env, keep


def do_write(job, work):
    sc = wire.Schema(job['schema'])
    out = {'files': [], 'errors': []}
    for g, group in enumerate(job['groups']):
        write_group(sc, job, work, 'g%d' % g, list(enumerate(group)), g, out)
    return out


def write_group(sc, job, work, tag, objs, g, out):
    f, env, keep = new_doc(sc, job['nleaf'], objs)
    bad = [(i, e) for i, x, e in keep if e]
    for i, e in bad:
        out['errors'].append({'group': g, 'i': i, 'step': 'build', 'e': e})
    paths = []
    try:
        for bo in job['orders']:
            p = os.path.join(work, '%s-%s.avb' % (tag, bo))
            f.write(p, byte_order=bo)
            paths.append([bo, p])
    except Exception as e:
        if len(objs) == 1:
            out['errors'].append({'group': g, 'i': objs[0][0], 'step': 'write', 'e': drv.err(e)})
            return
        h = len(objs) // 2
        write_group(sc, job, work, tag + 'a', objs[:h], g, out)
        write_group(sc, job, work, tag + 'b', objs[h:], g, out)
        return
    for bo, p in paths:
        out['files'].append({'group': g, 'bo': bo, 'path': p, 'i': [i for i, x, e in keep if not e]})


def raw(v, env):
    """a value with its Python type, up to equality"""
    import uuid, datetime
    if v is None:
        return ['none']
    if isinstance(v, bool):
        return ['bool', v]
    if isinstance(v, int):
        return ['int', str(v)]
    if isinstance(v, float):
        return ['float', repr(v)]
    if isinstance(v, str):
        return ['str', v]
    if isinstance(v, (bytes, bytearray)):
        return ['bytes' if isinstance(v, bytes) else 'bytearray', bytes(v).hex()]
    if isinstance(v, memoryview):
        return ['bytes', bytes(v).hex()]
    if isinstance(v, uuid.UUID):
        return ['uuid', v.hex]
    if isinstance(v, datetime.datetime):
        return ['time', v.isoformat()]
    if isinstance(v, avb.mobid.MobID):
        return ['mobid', bytes(v.bytes_le).hex()]
    if getattr(v, 'class_id', None):
        return ['ref', env.ref(v)]
    if isinstance(v, tuple):
        return ['tuple'] + [raw(x, env) for x in v]
    if isinstance(v, list):
        return ['list'] + [raw(x, env) for x in v]
    pd = getattr(v, 'property_data', None)
    if pd is not None:
        return ['helper', type(v).__name__, raw_props(v, env)]
    if isinstance(v, dict):
        return ['dict', sorted((k, raw(x, env)) for k, x in v.items())]
    return ['other', type(v).__name__]


def raw_props(o, env):
    out = {}
    for n, v in o.property_data.items():
        try:
            out[n] = raw(v, env)
        except Exception as e:
            out[n] = ['error']
    return out


def do_read(job, work):
    """read the given chunks of the given files"""
    sc = wire.Schema(job['schema'])
    res = []
    for fl in job['files']:
        r = {}
        res.append(r)
        kw = {'use_ext': fl.get('ext', False)}
        if fl.get('ext') and not avb.file.READERS:
            r['err'] = 'compiled readers did not load'
            continue
        try:
            f = avb.open(fl['path'], **kw)
        except Exception as e:
            r['open'] = drv.err(e)
            continue
        env = drv.Env(f)
        objs = r['objs'] = []
        for cid, index in fl['read']:
            try:
                o = f.read_object(index)
            except Exception as e:
                objs.append({'e': drv.err(e)})
                continue
            try:
                d = {'rec': wire.project(sc, cid, o, env), 'py': type(o).__name__}
                if fl.get('raw'):
                    if hasattr(o, 'property_data'):
                        d['raw'] = raw_props(o, env)
                    elif isinstance(o, dict):
                        d['raw'] = [[k, raw(x, env)] for k, x in o.items()]
                    else:
                        d['raw'] = [raw(x, env) for x in o]
                if fl.get('extra'):
                    pd = getattr(o, 'property_data', None)
                    d['names'] = sorted(pd) if pd is not None else None
            except Exception as e:
                d = {'e': drv.err(e), 'in': 'project'}
            objs.append(d)
        f.close()
    return res


def attempt(f, index):
    try:
        o = f.read_object(index)
    except Exception as e:
        return None, drv.err(e)
    return o, None


def do_damage(job, work):
    """files with damaged objects: read each target (twice when refused), then the
    leaves and the root again, then try to save something that refers to the target"""
    sc = wire.Schema(job['schema'])
    res = []
    for fl in job['files']:
        r = {'objs': []}
        res.append(r)
        if fl.get('ext') and not avb.file.READERS:
            r['err'] = 'compiled readers did not load'
            continue
        try:
            f = avb.open(fl['path'], use_ext=fl.get('ext', False))
        except Exception as e:
            r['open'] = drv.err(e)
            continue
        env = drv.Env(f)
        for k, (cid, index) in enumerate(fl['read']):
            o, e = attempt(f, index)
            if e:
                d = {'e': e}
                o2, e2 = attempt(f, index)
                if e2 is None:
                    d['again'] = 'a second read returned %r' % type(o2).__name__
                if index in getattr(f, 'object_cache', {}):
                    d['again'] = 'the refused object is in the cache'
                if fl.get('save') and k % fl['save'] == 0:
                    # a document that refers to the refused object cannot be saved
                    a = f.create.Attributes()
                    collections.OrderedDict.__setitem__(a, 'x', avb.utils.AVBObjectRef(f, index))
                    f.content.attributes = a
                    p = os.path.join(work, 'resave.avb')
                    try:
                        f.write(p)
                        d['saved'] = True
                    except Exception:
                        pass
                    f.content.attributes = None
            else:
                d = {'py': type(o).__name__}
                try:
                    d['rec'] = wire.project(sc, cid, o, env)
                    if fl.get('raw'):
                        if hasattr(o, 'property_data'):
                            d['raw'] = raw_props(o, env)
                        elif isinstance(o, dict):
                            d['raw'] = [[k2, raw(x, env)] for k2, x in o.items()]
                        else:
                            d['raw'] = [raw(x, env) for x in o]
                except Exception as e:
                    d['project'] = drv.err(e)
            r['objs'].append(d)
        bad = []
        for n in range(1, fl['nleaf'] + 1):
            o, e = attempt(f, n)
            if e or dict(o) != {'id': n}:
                bad.append([n, e or repr(o)])
        o, e = attempt(f, fl['root'])
        if e or o is not f.content:
            bad.append(['root', e])
        r['others'] = bad
        f.close()
    return res


def do_open(job, work):
    """open (damaged) files and read every object they announce"""
    res = []
    for n, h in enumerate(job['files']):
        data = bytes.fromhex(h)
        src = io.BytesIO(data)
        if n % 7 == 0:
            src = os.path.join(work, 'f.avb')
            with open(src, 'wb') as fh:
                fh.write(data)
        try:
            f = avb.open(src)
        except Exception as e:
            res.append({'open': drv.err(e)})
            continue
        objs = []
        for i in range(1, len(f.object_positions)):
            o, e = attempt(f, i)
            if e:
                o2, e2 = attempt(f, i)
                objs.append([False, e['err'], e2 is None])
            else:
                objs.append([True, type(o).__name__, False])
        res.append({'objs': objs})
        f.close()
    return res


if __name__ == '__main__':
    drv.run(lambda job, work: {'write': do_write, 'read': do_read, 'damage': do_damage, 'open': do_open}[job['do']](job, work))
