"""C23: values the format cannot hold are refused on saving (AvbValues)."""
import base, gen, wire
import p_wire as pw

NLEAF = pw.NLEAF


# ---- where values sit in an object ------------------------------------------
def leaves(sc, it, w, rec, par, path):
    """(path, type) of every scalar below an item; path elements ['p', name] / ['i', position]"""
    op = it['op']
    if op == 'fld':
        yield path, it['t']
    elif op == 'tup':
        for k, t in enumerate(it['ts']):
            yield path + [['i', k]], t
    elif op == 'grid':
        for k in range(len(w)):
            yield path + [['i', k], ['i', 0]], 's32'
            yield path + [['i', k], ['i', 1]], 's32'
    elif op == 'ints':
        for k in range(len(w)):
            yield path + [['i', k]], 's32'
    elif op in ('recs', 'recbody', 'binitems', 'sift6', 'plugin1'):
        items = {'binitems': sc.binitem, 'sift6': sc.sift, 'plugin1': sc.plugin}.get(op) or it['items']
        sel = {s['on'] for s in items if s['op'] == 'case'}
        for k, x in enumerate(w):
            for s in items:
                if s['op'] in ('lit', 'litt', 'len', 'skip') or s['n'] in sel:
                    continue
                for y in leaves(sc, s, x[s['n']], x, rec, path + [['i', k], ['p', s['n']]]):
                    yield y
    elif op == 'case':
        yield path, wire.case_type(it, wire._case_key_w(it, rec, par))
    elif op == 'tracks':
        for k, tr in enumerate(w):
            for _, n, t in sc.track:
                if n in tr:
                    yield path + [['i', k], ['p', n]], t
            if 'lock_number' in tr:
                yield path + [['i', k], ['p', 'lock_number']], 's16'
    elif op == 'selected':
        yield path, 'u16'
    elif op == 'pixels':
        for k in range(len(w)):
            yield path + [['i', k], ['p', 'Code']], 'px'
            yield path + [['i', k], ['p', 'Size']], 'px'
    elif op == 'mpgfields':
        for k in range(len(w)):
            yield path + [['i', k], ['p', '#0']], 'px'
            yield path + [['i', k], ['p', '#1']], 'u32'
    elif op == 'attrs':
        for k, a in enumerate(w):
            if a['t'] in (1, 2):
                yield path + [['i', k], ['p', 'v']], {1: 's32', 2: 'str'}[a['t']]
            yield path + [['i', k], ['p', 'k']], 'str'


def integer(n):
    m = abs(n)
    return {'k': 'int', 'neg': n < 0, 'mag': list(m.to_bytes((m.bit_length() + 7) // 8, 'big'))}


def text(s):
    return {'k': 'text', 'cp': [ord(x) for x in s]}


JUNK = [['junk', 'text'], ['junk', 'none'], ['junk', 'object']]


def trials(rng, t, many):
    """[(abstract value or None, python value description)] for a field of type t"""
    out = []
    if t in wire.WIDTH or t == 'px':
        w = 8 * wire.WIDTH.get(t, 1)
        s = t[0] == 's'
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        vals = [lo - 1, hi + 1, rng.choice([lo, hi])]
        more = [lo, hi, -(1 << 63) - 1, 1 << 64, 1 << 80, -1, 0, 1 << w, 65536, -32769, 2 ** 31, -2 ** 31 - 1]
        vals += more if many else rng.sample(more, 2)
        out = [(integer(v), ['int', str(v)]) for v in vals]
        out += [({'k': 'junk'}, j) for j in [['junk', 'text'], ['junk', 'none'], ['junk', 'float']]]
    elif t in ('str', 'nstr', 'pstr', 'ustr'):
        lim = 65534 if t != 'ustr' else 65532
        vals = ['日本', '\ud800', '\0a', 'a\0', '\0', 'a\0b', 'é\u2122\uf8ff', '', '\u20ac\u00a4', 'a\u0301']
        runs = [('x', lim), ('x', lim + 1), ('x', 65536), ('y', 70000), ('\xe9', lim // 2), ('\xe9', lim // 2 + 1), ('\xe9', 65535)]
        if not many:
            vals = vals[:2] + rng.sample(vals[2:], 3)
            runs = [runs[1]] + rng.sample(runs, 1)
        out = [(text(v), ['text', [ord(x) for x in v]]) for v in vals]
        out += [({'k': 'run', 'cp': ord(v), 'n': n}, ['run', ord(v), n]) for v, n in runs]
        out += [({'k': 'junk'}, ['junk', 'int']), ({'k': 'junk'}, ['junk', 'object'])]
    elif t == 'fourcc':
        out = [({'k': 'bytes', 'b': list(v)}, ['bytes', v.hex()]) for v in (b'', b'abc', b'abcde', b'wxyz')]
        out += [({'k': 'junk'}, j) for j in [['junk', 'none'], ['junk', 'int']]]
    elif t == 'ref':
        out = [({'k': 'none'}, ['junk', 'none']), ({'k': 'junk'}, ['junk', 'text']), ({'k': 'junk'}, ['junk', 'object'])]
    elif t == 'exp10':
        out = [({'k': 'junk'}, ['float', repr(v)]) for v in
               (2147483648.0, -2147483649.0, 1e30, float('inf'), float('nan'), 4294967296.5)]
        out += [({'k': 'junk'}, j) for j in [['junk', 'text'], ['junk', 'none']]]
    elif t == 'time':
        out = [({'k': 'junk'}, ['time', v]) for v in (-1, -86400, 2 ** 32, 2 ** 33)]
        out += [({'k': 'junk'}, j) for j in [['junk', 'text'], ['junk', 'none'], ['junk', 'int']]]
    elif t in ('uuid', 'mobid'):
        out = [({'k': 'junk'}, j) for j in [['junk', 'text'], ['junk', 'none'], ['junk', 'int']]]
    elif t == 'double':
        out = [({'k': 'junk'}, j) for j in [['junk', 'text'], ['junk', 'none'], ['junk', 'object']]]
    return out


def blob_type(it):
    op = it['op']
    if op == 'raw':
        return ['exactly', it['k'], 0]
    if op == 'data':
        return ['counted', it['c'], 0]
    return None


COUNT = {'refs': lambda it: it['c'], 'recs': lambda it: it['c'], 'fmtdesc': lambda it: 's16', 'mpgfields': lambda it: 'x16383'}


def cases_of(c, sc):
    g = gen.Gen(sc, c.rng, NLEAF)
    out = []
    for cid in sorted(sc.classes):
        for rep in range(6 if c.thorough else 1):
            # an object with something in every list
            best = None
            for _ in range(25):
                rec = g.rec(cid, 1.0)
                n = sum(1 for n, (it, need) in sc.props(cid).items() for _ in leaves(sc, it, rec[n], rec, None, []))
                if best is None or n > best[0]:
                    best = (n, rec)
            rec = best[1]
            todo = []
            sel = {it['on'] for it, need in sc.items(cid) if it['op'] == 'case'}
            for it, need in sc.items(cid):
                for s in it.get('items', []):
                    if s['op'] == 'case' and s['on'] == '^value_type':
                        sel.add('value_type')
            for n, (it, need) in sorted(sc.props(cid).items()):
                by = {}
                for path, t in leaves(sc, it, rec[n], rec, None, [['p', n]]):
                    by.setdefault((tuple(x[1] for x in path if x[0] == 'p'), t, 0 if it['op'] != 'tup' else path[-1][1]), []).append((path, t))
                for key, where in sorted(by.items(), key=str):
                    path, t = c.rng.choice(where)
                    if n in sel:
                        for v in (0, 3, 7, -1):
                            todo.append({'what': 'never', 'path': path, 'py': ['int', str(v)]})
                        continue
                    for x, py in trials(c.rng, t, c.thorough):
                        e = {'what': 'scalar', 'path': path, 't': 'u8' if t == 'px' else t, 'x': x, 'py': py}
                        if t == 'px' or x['k'] == 'run':
                            e['norec'] = 1
                        if it['op'] == 'attrs' and x['k'] == 'junk':
                            # of an attribute only its own type is wrong
                            if path[-1][1] == 'v' and py[1] not in ('float', 'object'):
                                continue
                        if it['op'] == 'attrs' and path[-1][1] == 'v' and t == 'str' and py == ['junk', 'int']:
                            continue
                        todo.append(e)
                b = blob_type(it)
                if b:
                    sizes = [b[1] - 1, b[1] + 1, 0, b[1]] if b[0] == 'exactly' else [0, 32767, 32768, 65535, 65536]
                    for k in sizes:
                        todo.append({'what': 'blob', 'path': [['p', n]], 't': b, 'n': k, 'py': ['blob', k], 'norec': 1})
                    for j in [['junk', 'none'], ['junk', 'text'], ['junk', 'int']]:
                        todo.append({'what': 'never', 'path': [['p', n]], 'py': j})
                if it['op'] == 'tup':
                    w = len(it['ts'])
                    for k in (w - 1, w + 1, 0):
                        todo.append({'what': 'exact', 'path': [['p', n]], 'want': w, 'n': k, 'py': ['resize', k], 'norec': 1})
                if it['op'] == 'grid':
                    for k in (it['k'] - 1, it['k'] + 1, 0):
                        todo.append({'what': 'exact', 'path': [['p', n]], 'want': it['k'], 'n': k, 'py': ['resize', k], 'norec': 1})
                if it['op'] == 'sift6':
                    for k in (5, 7, 0):
                        todo.append({'what': 'exact', 'path': [['p', n]], 'want': 6, 'n': k, 'py': ['resize', k], 'norec': 1})
                if it['op'] in COUNT and cid not in ('BINF',):
                    t = COUNT[it['op']](it)
                    lim = {'s16': 32767, 'u16': 65535, 'x16383': 16383}.get(t)
                    if lim and rec[n]:
                        for k in ((lim + 1, lim) if c.thorough else (lim + 1,)):
                            todo.append({'what': 'exact' if t == 'x16383' else 'count', 't': t, 'want': min(k, lim), 'path': [['p', n]],
                                         'n': k, 'py': ['resize', k], 'norec': 1})
            for n in sorted(rec):
                if sc.props(cid)[n][0].get('t') == 'x4949':    # only one value there: nothing to miss
                    continue
                todo.append({'what': 'have', 'have': sorted(set(rec) - {n}), 'path': [['p', n]], 'py': ['drop']})
            for e in todo:
                e.update(cid=cid, bo=c.rng.choice(['little', 'big']), rec=rec)
                out.append(e)
    return out


def c23(c):
    sc = c.schema()
    cases = cases_of(c, sc)
    groups, last = [], None
    for k, e in enumerate(cases):
        if e['rec'] is not last:
            groups.append([])
            last = e['rec']
        groups[-1].append(k)
    parts = [groups[i::8] for i in range(8)]
    hs = []
    for part in parts:
        job = {'schema': pw.sc_path(c), 'nleaf': NLEAF, 'groups': [
            {'cid': cases[ks[0]]['cid'], 'rec': cases[ks[0]]['rec'],
             'trials': [{'path': cases[k]['path'], 'py': cases[k]['py'], 'bo': cases[k]['bo']} for k in ks]} for ks in part]}
        hs.append((part, c.driver_start('drv_values.py', job)))
    got = [None] * len(cases)
    for part, h in hs:
        r = c.accept(c.driver_wait(h, 600), 'drv_values.py')
        for ks, x in zip(part, r or []):
            if 'build' in x:
                c.violation('%s:build' % cases[ks[0]]['cid'], 'a storable %s could not be made or saved: %s' % (
                            cases[ks[0]]['cid'], x['build']), cases[ks[0]])
                continue
            for k, o in zip(ks, x['out']):
                got[k] = o
    q = []
    for e, o in zip(cases, got):
        d = {'cid': e['cid'], 'bo': e['bo'], 'what': e['what'], 'nobj': NLEAF}
        for n in ('path', 't', 'x', 'n', 'want', 'have'):
            if n in e:
                d[n] = e[n]
        if e['what'] == 'scalar' and e.get('norec'):
            d['what'] = 'fits'
        if o and o.get('nobj'):
            leaf = {int(a): b for a, b in o['leaf'].items()}
            d['nobj'] = o['nobj']

            def remap(w, leaf=leaf):
                n = int.from_bytes(bytes(w), 'big')
                return gen.be(leaf[n] if n else 0, 4)
            d['rec'] = wire.map_refs(sc, e['cid'], e['rec'], remap)
        else:
            d['rec'] = e['rec']
        if o and 'bytes' in o:
            d['bytes'] = list(bytes.fromhex(o['bytes'])) if not e.get('norec') and e['what'] != 'have' else []
        if e.get('norec') or e['what'] == 'have':
            d.pop('rec')
        q.append(d)
    res = c.tlc_batch('ValueTrace', q)
    n = refused = 0
    for e, o, r in zip(cases, got, res):
        if o is None:
            continue
        n += 1
        where = '.'.join(str(x[1]) for x in e['path'])
        key = '%s:%s:%s' % (e['cid'], '.'.join(str(x[1]) for x in e['path'] if x[0] == 'p'), e['py'][0])
        tell = {'class': e['cid'], 'where': where, 'value': str(e['py'])[:200], 'order': e['bo'], 'what': e['what'],
                'type': e.get('t'), 'object': e['rec'], 'outcome': {k: v for k, v in o.items() if k != 'bytes'}}
        if not r['ok']:
            refused += 1
            if 'err' not in o:
                c.violation(key, '%s.%s: %s cannot be held by the format but was saved' % (e['cid'], where, str(e['py'])[:60]), tell)
        else:
            if 'err' in o:
                c.violation(key, '%s.%s: %s fits the format but was refused: %s' % (e['cid'], where, str(e['py'])[:60], o['err']), tell)
            elif r['clauses']:
                c.violation(key, '%s.%s: %s: %s' % (e['cid'], where, str(e['py'])[:60], r['clauses']), tell)
    pw.check_large_bins(c, sc)
    c.cov.update(programs=n, disagreements_checked=n, refusals=refused, classes=len(sc.classes))


CHECKS = {'C23': (pw.TV, c23)}
