"""C01 (objects), C02, C03, C04, C21: the object codec against AvbWire."""
import itertools, os
import avbfile, base, gen, wire

NLEAF = 7


def make_recs(c, sc, per_class, big=False):
    g = gen.Gen(sc, c.rng, NLEAF, big)
    out = []
    for cid in sorted(sc.classes):
        for k in range(per_class):
            out.append({'cid': cid, 'rec': g.rec(cid, [1.0, 0.0][k] if k < 2 else None)})
    return out + (long_recs(c, sc) if big else [])


def long_recs(c, sc):
    """for every list of every class an object in which it is long, and one with long texts"""
    g = gen.Gen(sc, c.rng, NLEAF)
    out = []
    for cid in sorted(sc.classes):
        names = g.lists([it for it, need in sc.items(cid)])
        for name in [''] + sorted(set(names)):
            for n in [255, 256, 257, 300, 1000] if c.thorough else [c.rng.choice([256, 257, 300])]:
                best = None
                for _ in range(20):
                    g.long = (name, n)
                    rec = g.rec(cid, 1.0)
                    if (name == '' and rec or longest(rec) >= 255) and (best is None or weight(rec) < weight(best)):
                        best = rec
                if best is not None:
                    out.append({'cid': cid, 'rec': best, 'long': 1})
    # texts around the sizes where widths and signs matter
    where = [(cid, n, it['t']) for cid in sorted(sc.classes) for n, (it, need) in sorted(sc.props(cid).items())
             if it.get('t') in ('str', 'nstr', 'pstr', 'ustr')]
    sizes = [32766, 32767, 32768, 32769, 65532, 65534]
    g.long = (None, 0)
    for cid, n, t in (where if c.thorough else c.rng.sample(where, 4)):
        for size in c.rng.sample(sizes, 2):
            rec = g.rec(cid, 1.0)
            if n in rec:
                if t == 'ustr':
                    size -= 2
                rec[n] = [c.rng.randrange(32, 127) for _ in range(size)]
                out.append({'cid': cid, 'rec': rec, 'long': 1})
    return out


def large_bins(c, sc):
    """bins at the number of items where the format changes"""
    g = gen.Gen(sc, c.rng, NLEAF)
    out = []
    todo = [(cid, n) for cid in ('ABIN', 'BINF') for n in (65534, 65535, 65536, 65537, 70000)] if c.thorough else \
        [('ABIN', 65536)] if c.pid == 'C01' else [('ABIN', 65536), (c.rng.choice(['ABIN', 'BINF']), 65535)] if c.pid == 'C23' else [(c.rng.choice(['ABIN', 'BINF']), c.rng.choice([65535, 65537])), ('ABIN', 65536)]
    for cid, n in todo:
        g.long = ('items', n)
        rec = g.rec(cid, 1.0)
        rec['large_bin'] = False
        out.append({'cid': cid, 'rec': rec, 'long': 1})
    return out


def check_large_bins(c, sc):
    """the item count takes the layout it needs, and every item is there again"""
    recs = large_bins(c, sc)
    done = []
    for k, x in enumerate(recs):
        done += [(k,) + y[1:] for y in write_all(c, sc, [x], orders=[c.rng.choice(['little', 'big'])])]
    res = c.tlc_batch('WireTrace', [x[3] for x in done])
    got = read_back(c, sc, [(p, i, e['cid']) for n, p, i, e in done])
    for (n, p, i, e), r, o in zip(done, res, got):
        many = len(recs[n]['rec']['items'])
        if r['clauses']:
            c.violation('large-bin', 'a bin of %d items (%s-endian) is stored wrongly: %s' % (many, e['bo'], r['clauses']),
                        {'items': many, 'clauses': r['clauses']})
        elif o is None or 'e' in o or len(o['rec']['items']) != many or bool(o['rec']['large_bin']) != (many > 65535):
            c.violation('large-bin-read', 'a bin of %d items (%s-endian) does not come back' % (many, e['bo']),
                        {'items': many, 'got': o.get('e') if o else None})
    if len(done) == len(recs):
        c.cov['large_bins'] = [len(x['rec']['items']) for x in recs]


def weight(x):
    x = list(x.values()) if isinstance(x, dict) else x
    return sum(weight(v) for v in x) if isinstance(x, list) else 1


def longest(x):
    if isinstance(x, dict):
        return max([longest(v) for v in x.values()] or [0])
    if isinstance(x, list):
        return max([len(x)] + [longest(v) for v in x])
    return 0


def write_all(c, sc, recs, orders=('little', 'big'), group=40):
    """-> list of (case index, bo, {cid, rec with chunk numbers, nobj, bytes})"""
    groups = [recs[i:i + group] for i in range(0, len(recs), group)]
    parts = [groups[i::6] for i in range(6)]
    hs = []
    for k, part in enumerate(parts):
        if part:
            job = {'do': 'write', 'schema': sc_path(c), 'groups': part, 'nleaf': NLEAF, 'orders': list(orders)}
            hs.append((k, c.driver_start('drv_wire.py', job)))
    done, files = [], []
    for k, h in hs:
        r = c.accept(c.driver_wait(h), 'drv_wire.py')
        if r is None:
            continue
        base_g = k

        def index(g, i):
            return (g * 6 + base_g) * group + i
        for e in r['errors']:
            n = index(e['group'], e['i'])
            c.violation('%s:%s' % (recs[n]['cid'], e['step']),
                        'a storable %s could not be %s: %s %s' % (recs[n]['cid'],
                         'created' if e['step'] == 'build' else 'saved', e['e']['err'], e['e']['msg']),
                        {'object': recs[n], 'error': e})
        for fl in r['files']:
            with open(fl['path'], 'rb') as fh:
                data = fh.read()
            try:
                d = avbfile.parse(data)
                leaf, where, holder = {}, {}, None
                for j, (cid, b) in enumerate(d['chunks'], 1):
                    if cid == 'ATTR':
                        try:
                            a = avbfile.parse_attr(d['bo'], b)
                        except Exception:
                            continue
                        if list(a) == ['id']:
                            leaf[a['id'][1]] = j
                        if a and all(t == 3 and k[:1] == 'o' and k[1:].isdigit() for k, (t, v) in a.items()):
                            holder = a
                if holder is None and fl['i']:
                    raise avbfile.BadFile('the objects are not in the file')
                for k, (t, v) in (holder or {}).items():
                    where[int(k[1:])] = v
                if d['bo'] != fl['bo']:
                    raise avbfile.BadFile('byte order')
                if [i for i in fl['i'] if i not in where] or len(leaf) != NLEAF:
                    raise avbfile.BadFile('objects missing from the file')
            except (avbfile.BadFile, IndexError, ValueError) as e:
                c.violation('container', 'a saved file is not well formed: %s' % e, {'file': fl})
                continue

            def remap(w):
                n = int.from_bytes(bytes(w), 'big')
                return gen.be(leaf[n] if n else 0, 4)
            rd = []
            for i in fl['i']:
                n = index(fl['group'], i)
                cid, b = d['chunks'][where[i] - 1] if 0 < where[i] <= len(d['chunks']) else ('', b'')
                if cid != recs[n]['cid']:
                    c.violation('%s:class' % recs[n]['cid'], 'saved under class %r instead of %s' % (cid, recs[n]['cid']),
                                {'object': recs[n]})
                    continue
                case = {'bo': fl['bo'], 'cid': cid, 'nobj': len(d['chunks']),
                        'rec': wire.map_refs(sc, cid, recs[n]['rec'], remap), 'bytes': list(b)}
                done.append((n, fl['path'], where[i], case))
    return done


def sc_path(c):
    return c.path('schema.json')


def read_back(c, sc, items, src=None, py=base.PURE, ext=False, extra=False, raw=False):
    """items: [(path, index, cid)] -> list of results in the same order"""
    by = {}
    for k, (p, i, cid) in enumerate(items):
        by.setdefault(p, []).append((k, cid, i))
    paths = sorted(by)
    parts = [paths[i::6] for i in range(6)]
    hs = []
    for part in parts:
        if part:
            job = {'do': 'read', 'schema': sc_path(c),
                   'files': [{'path': p, 'ext': ext, 'extra': extra, 'raw': raw, 'read': [[cid, i] for k, cid, i in by[p]]} for p in part]}
            hs.append((part, c.driver_start('drv_wire.py', job, src=src, py=py)))
    out = [None] * len(items)
    for part, h in hs:
        r = c.accept(c.driver_wait(h), 'drv_wire.py')
        if r is None:
            continue
        for p, fr in zip(part, r):
            if 'err' in fr:
                raise base.Machinery(fr['err'])
            for m, (k, cid, i) in enumerate(by[p]):
                out[k] = {'e': fr['open']} if 'open' in fr else fr['objs'][m]
    return out


def leaf_numbers(sc, cid, rec, inv):
    def fn(w):
        n = int.from_bytes(bytes(w), 'big')
        return gen.be(inv.get(n, 0xEEEE) if n else 0, 4)
    return wire.map_refs(sc, cid, rec, fn)


def diff(a, b):
    """names of properties that differ"""
    return sorted(n for n in set(a) | set(b) if n not in a or n not in b or a[n] != b[n])


def c02(c):
    sc = c.schema()
    recs = make_recs(c, sc, 40 if c.thorough else 7, big=True)
    done = write_all(c, sc, recs)
    for x in large_bins(c, sc):
        recs.append(x)
        done += [(len(recs) - 1,) + y[1:] for y in write_all(c, sc, [x], orders=['little', 'big'] if c.thorough else [c.rng.choice(['little', 'big'])])]
    # (that long encodings decode again is left to C01)
    cases = [x[3] if recs[x[0]].get('long') else dict(x[3], dec='enc') for x in done]
    res = c.tlc_batch('WireTrace', cases)
    for (n, p, i, case), r in zip(done, res):
        if r['clauses']:
            c.violation('%s:%s' % (case['cid'], case['bo']), '%s (%s-endian): %s' % (case['cid'], case['bo'], r['clauses']),
                        {'object': recs[n], 'case': case, 'clauses': r['clauses']})
    c.sample({'cid': done[0][3]['cid'], 'rec': done[0][3]['rec'], 'bytes': bytes(done[0][3]['bytes']).hex()} if done else {})
    c.cov.update(programs=len(recs), disagreements_checked=len(cases), classes=len(sc.classes),
                 distinct_encodings=len({(x[3]['bo'], x[3]['cid'], bytes(x[3]['bytes'])) for x in done}))



def canon(x):
    """TLC writes empty functions as [] and so loses {} / []"""
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items()} if x else []
    if isinstance(x, list):
        return [canon(v) for v in x]
    return x


def cdiff(a, b):
    return diff({k: canon(v) for k, v in (a or {}).items()}, {k: canon(v) for k, v in (b or {}).items()})


def root_bytes(c, sc, bo):
    """a minimal root bin, from the specification"""
    cache = c.__dict__.setdefault('_root', {})
    if bo not in cache:
        cases = []
        for o in ('little', 'big'):
            g = gen.Gen(sc, c.rng, 0)
            rec = g.rec('ABIN')
            rec.update(large_bin=False, items=[], view_setting=[0] * 4, attributes=[0] * 4)
            cases.append({'bo': o, 'cid': 'ABIN', 'nobj': 1, 'rec': rec, 'wantenc': 1})
        for o, r in zip(('little', 'big'), c.tlc_batch('WireTrace', cases, shards=1)):
            cache[o] = bytes(r['enc'])
    return cache[bo]


def spec_file(c, sc, bo, chunks, name):
    """leaves 1..NLEAF, the chunks, then a root bin; -> path, index of the first chunk"""
    leaves = [('ATTR', avbfile.attr_bytes(bo, {'id': n})) for n in range(1, NLEAF + 1)]
    allc = leaves + list(chunks) + [('ABIN', root_bytes(c, sc, bo))]
    p = c.path(name)
    with open(p, 'wb') as fh:
        fh.write(avbfile.build(bo, allc, len(allc)))
    return p, NLEAF + 1


def all_orders(k, limit):
    out = [list(p) for n in range(k + 1) for p in itertools.permutations(range(1, k + 1), n)]
    return out[:limit] if len(out) > limit else out


def plan_cases(c, sc, quick_random):
    """objects with chosen optional sections in chosen orders"""
    g = gen.Gen(sc, c.rng, NLEAF)
    cases = []
    for cid in sorted(sc.classes):
        secs = sc.classes[cid]['secs']
        opt = [k for k, s in enumerate(secs) if s['exts']]
        plans = []
        empty = [[] for _ in secs]
        for k in opt:
            n = len(secs[k]['exts'])
            if n <= 3:
                orders = all_orders(n, 99)
            else:
                orders = [[]] + [[i] for i in range(1, n + 1)] + [[i, j] for i in range(1, n + 1)
                          for j in range(1, n + 1) if i != j][::max(1, n * n // 12)]
            for o in orders:
                p = [list(x) for x in empty]
                p[k] = o
                plans.append(p)
        for _ in range(quick_random if opt else 4):
            p = []
            for s in secs:
                n = len(s['exts'])
                o = [i for i in range(1, n + 1) if c.rng.random() < c.rng.choice([.5, .8])]
                c.rng.shuffle(o)
                p.append(o)
            plans.append(p)
        if not plans:
            plans = [empty] * 4
        for p in plans:
            rec = g.rec(cid, 1.0)
            keep = set()
            for s, o in zip(secs, p):
                for i, x in enumerate(s['exts'], 1):
                    if x['need'][0] == '#tracks':
                        if i in o and not rec['tracks']:
                            o.remove(i)
                        elif i not in o:
                            for tr in rec['tracks']:
                                tr.pop('lock_number', None)
                        else:
                            for tr in rec['tracks']:
                                tr.setdefault('lock_number', [0, 0])
                    elif i in o and any(it['op'] != 'legacy' for it in x['items']):
                        keep.update(x['need'])
            for s, o in zip(secs, p):
                for i, x in enumerate(s['exts'], 1):
                    if True:
                        for n in x['need']:
                            if n not in keep and n[0] != '#':
                                rec.pop(n, None)
            for bo in ('little', 'big'):
                cases.append({'bo': bo, 'cid': cid, 'nobj': NLEAF, 'rec': rec, 'plans': p, 'dec': 'enc', 'wantenc': 1})
    return cases


def spec_files(c, sc, cases, res, tag, per=60):
    """put the specification's encodings into files; -> [(path, index, cid)] per case"""
    where = [None] * len(cases)
    by = {'little': [], 'big': []}
    for k, e in enumerate(cases):
        by[e['bo']].append(k)
    for bo, ks in by.items():
        for n in range(0, len(ks), per):
            part = ks[n:n + per]
            p, first = spec_file(c, sc, bo, [(cases[k]['cid'], bytes(res[k]['enc'])) for k in part],
                                 '%s-%s-%d.avb' % (tag, bo, n))
            for m, k in enumerate(part):
                where[k] = (p, first + m, cases[k]['cid'])
    return where


def judge_read(c, sc, cases, res, got, label):
    for e, r, o in zip(cases, res, got):
        if o is None:
            continue
        if 'e' in o:
            c.violation('%s:%s' % (e['cid'], label), 'a well-formed %s (%s-endian) is refused: %s %s' % (
                        e['cid'], e['bo'], o['e']['err'], o['e']['msg'][:80]), {'case': e, 'bytes': r['enc'], 'error': o})
            continue
        d = cdiff(r['dec'], o['rec'])
        extra = sorted(set(o.get('names') or []) - set(sc.props(e['cid'])))
        if d or extra or o['py'] != sc.classes[e['cid']]['py']:
            c.violation('%s:%s:%s' % (e['cid'], label, ','.join(d + extra)),
                        '%s (%s-endian) reads differently: %s' % (e['cid'], e['bo'], ', '.join(d + extra) or o['py']),
                        {'case': e, 'bytes': r['enc'], 'want': {k: (r["dec"] or {}).get(k) for k in d},
                         'got': {k: o['rec'].get(k) for k in d}, 'class': o['py']})


def c03(c):
    sc = c.schema()
    cases = plan_cases(c, sc, 60 if c.thorough else 6)
    res = c.tlc_batch('WireTrace', cases)
    for e, r in zip(cases, res):
        if r['clauses'] or cdiff(r['dec'], e['rec']):
            raise base.Machinery('the specification does not decode its own encoding: %s %s %s' % (
                e['cid'], r['clauses'], cdiff(r['dec'], e['rec'])))
    where = spec_files(c, sc, cases, res, 'c03')
    got = read_back(c, sc, where, extra=True)
    judge_read(c, sc, cases, res, got, 'pure')
    c.sample({'cid': cases[-1]['cid'], 'bo': cases[-1]['bo'], 'plans': cases[-1]['plans'], 'bytes': bytes(res[-1]['enc']).hex()})
    c.cov.update(programs=len(cases), disagreements_checked=len([g for g in got if g]), classes=len(sc.classes),
                 distinct_encodings=len({(e['cid'], e['bo'], bytes(r['enc'])) for e, r in zip(cases, res)}))


def c01_objects(c, sc, per):
    recs = make_recs(c, sc, per, big=True)
    done = write_all(c, sc, recs)
    for x in large_bins(c, sc):
        recs.append(x)
        done += [(len(recs) - 1,) + y[1:] for y in write_all(c, sc, [x], orders=[c.rng.choice(['little', 'big'])])]
    huge = [weight(x[3]['rec']) > 30000 for x in done]      # (decoding back one's own encoding is slow there)
    res = c.tlc_batch('WireTrace', [{'bo': 'little', 'cid': 'ABIN', 'nobj': 0} if h else dict(x[3], dec='enc')
                                    for x, h in zip(done, huge)])
    for x, h, r in zip(done, huge, res):
        if h:
            r['dec'] = dict(x[3]['rec'])
            if len(r['dec'].get('items', [])) > 65535:
                r['dec']['large_bin'] = True
            # every track is stored with a lock number
            if 'tracks' in r['dec']:
                r['dec']['tracks'] = [dict({'lock_number': [0, 0]}, **t) for t in r['dec']['tracks']]
    got = read_back(c, sc, [(p, i, e['cid']) for n, p, i, e in done], extra=True)
    # references: the leaf a chunk number stands for
    leafs = {}
    for (n, p, i, e), r, o in zip(done, res, got):
        if o is None:
            continue
        if p not in leafs:
            with open(p, 'rb') as fh:
                d = avbfile.parse(fh.read())
            leafs[p] = {}
            for j, (cid, b) in enumerate(d['chunks'], 1):
                if cid == 'ATTR':
                    a = avbfile.parse_attr(d['bo'], b)
                    if list(a) == ['id']:
                        leafs[p][j] = a['id'][1]
        r = dict(r, dec=leaf_numbers(sc, e["cid"], r["dec"] or {}, leafs[p]), enc=[])
        judge_read(c, sc, [dict(e, object=recs[n])], [r], [o], 'reopen')
    return recs, done


EXT_CLASSES = ['CMPO', 'TKFX', 'MDES', 'DIDD', 'CDCI', 'SLCT', 'SEQU', 'FILL', 'SCLP', 'PRCL', 'PRIT', 'TRKR',
               'FXPS', 'ATTR']


def c04(c):
    """both readers on the same encodings, well formed or damaged"""
    sc = c.schema()
    ext = c.build_ext()
    cases = [e for e in plan_cases(c, sc, 80 if c.thorough else 12) if e['bo'] == 'little']
    g = gen.Gen(sc, c.rng, NLEAF, big=True)
    for cid in EXT_CLASSES:
        for k in range(200 if c.thorough else 25):
            cases.append({'bo': 'little', 'cid': cid, 'nobj': NLEAF, 'rec': g.rec(cid), 'dec': 'enc', 'wantenc': 1})
    res = c.tlc_batch('WireTrace', cases)
    where = spec_files(c, sc, cases, res, 'c04')
    a = read_back(c, sc, where, extra=True, raw=True)
    b = read_back(c, sc, where, src=ext, py=base.EXTPY, ext=True, extra=True, raw=True)
    pairs = 0
    for e, r, x, y in zip(cases, res, a, b):
        if x is None or y is None:
            continue
        pairs += 1
        if 'e' in x or 'e' in y:
            if ('e' in x) != ('e' in y):
                c.violation('%s:refusal' % e['cid'], '%s: only the %s reader refuses it: %s' % (
                            e['cid'], 'pure' if 'e' in x else 'compiled', (x.get('e') or y.get('e'))),
                            {'case': e, 'bytes': r['enc'], 'pure': x, 'ext': y})
            continue
        if isinstance(x['raw'], dict):
            d = [n for n in sorted(set(x['raw']) | set(y['raw'])) if x['raw'].get(n) != y['raw'].get(n)]
            first = [(n, x['raw'].get(n), y['raw'].get(n)) for n in d]
        else:
            d = [] if x['raw'] == y['raw'] else ['contents']
            first = [(x['raw'], y['raw'])] if d else []
        if d or x['py'] != y['py']:
            c.violation('%s:%s' % (e['cid'], ','.join(d)), '%s: the readers disagree on %s: %s' % (
                        e['cid'], ', '.join(d), str(first)[:200]),
                        {'case': e, 'bytes': r['enc'], 'differences': first})
    judge_read(c, sc, cases, res, b, 'ext')
    damaged, refused = c04_damaged(c, sc, ext)
    c.sample({'cid': cases[0]['cid'], 'bytes': bytes(res[0]['enc']).hex()})
    c.cov.update(programs=len(cases), disagreements_checked=pairs + damaged, damaged=damaged,
                 damaged_refused=refused, compiled_classes=len(EXT_CLASSES))



def c04_damaged(c, sc, ext):
    import p_damage
    files = p_damage.mutants(c, sc, EXT_CLASSES, ['little'], [1.0] + [None] * (8 if c.thorough else 3), c.thorough, 100)
    p_damage.read_all(c, sc, files, raw=True)
    p_damage.read_all(c, sc, files, src=ext, py=base.EXTPY, ext=True, raw=True)
    n = refused = 0
    for m in [m for f in files for m in f['muts']]:
        x, y = m.get('pure'), m.get('ext')
        if x is None or y is None:
            continue
        n += 1
        tell = {'class': m['cid'], 'damage': m['what'], 'specification': [m['ok'], m['why']], 'bytes': bytes(m['bytes']).hex(),
                'pure': x, 'ext': y}
        if 'e' in x or 'e' in y:
            refused += 1
            if ('e' in x) != ('e' in y):
                # a rate outside what floats hold may fail in one of them only
                if m['ok'] and p_damage.unusual(sc, m)[1]:
                    continue
                c.violation('%s:refusal' % m['cid'], '%s (%s): only the %s reader refuses it' % (
                            m['cid'], m['what'].split(' at')[0], 'pure' if 'e' in x else 'compiled'), tell)
        elif x.get('raw') != y.get('raw') or x.get('py') != y.get('py'):
            c.violation('%s:damaged' % m['cid'], '%s: the readers disagree on a damaged object (%s)' % (
                        m['cid'], m['what'].split(' at')[0]), tell)
    return n, refused


def c01(c):
    sc = c.schema()
    recs, done = c01_objects(c, sc, 40 if c.thorough else 8)
    c.sample({'cid': recs[0]['cid'], 'rec': recs[0]['rec']})
    c.cov.update(programs=len(recs), disagreements_checked=len(done), classes=len(sc.classes))


TV = 'translation_validation'
CHECKS = {'C01': (TV, c01), 'C02': (TV, c02), 'C03': (TV, c03), 'C04': (TV, c04)}
