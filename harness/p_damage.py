"""C21: damaged objects and files are refused (AvbWire.Decode, AvbFile.ParseFile)."""
import avbfile, base, gen, wire
import p_wire as pw

NLEAF = pw.NLEAF


def bad_refs(c, sc, cid, rec, nobj):
    """variants of rec in which one reference points outside the file"""
    n = [0]
    wire.map_refs(sc, cid, rec, lambda w: n.__setitem__(0, n[0] + 1) or w)
    out = []
    for k in range(n[0]):
        for v in c.rng.sample([nobj + 1, nobj + 2, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x01000000], 2):
            m = [0]

            def fn(w):
                m[0] += 1
                return gen.be(v, 4) if m[0] - 1 == k else w
            out.append((wire.map_refs(sc, cid, rec, fn), v))
    return out


def damage(rng, b, marks, many):
    """(label, damaged bytes) of an encoding"""
    b = list(b)
    n = len(b)
    out = []
    cuts = list(range(n)) if many else sorted(set(rng.sample(range(n), min(n, 5)) + [n - 1]))
    for k in cuts:
        out.append(('cut at %d of %d' % (k, n), b[:k]))
        if rng.random() < .3:
            out.append(('cut at %d, terminated' % k, b[:k] + [3]))
    for x in ([0], [3], [1, 99, 3], [rng.randrange(256) for _ in range(rng.randrange(1, 9))]):
        out.append(('surplus', b + x))
    out.append(('surplus before the end', b[:-1] + [rng.randrange(256), 3]))
    ms = marks if many else rng.sample(marks, min(len(marks), 8))
    for m in ms:
        for v in rng.sample([0, 1, 2, 3, 255, (b[m - 1] + 1) % 256, (b[m - 1] - 1) % 256, rng.randrange(256)], 2):
            if v != b[m - 1]:
                d = list(b)
                d[m - 1] = v
                out.append(('mark at %d: %d for %d' % (m, v, b[m - 1]), d))
    for _ in range(40 if many else 8):
        d = list(b)
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            if not d:
                break
            k = rng.randrange(len(d))
            z = rng.random()
            if z < .6:
                d[k] = rng.choice([0, 1, 255, 127, 128, (d[k] + 1) % 256, d[k] ^ (1 << rng.randrange(8)), rng.randrange(256)])
            elif z < .8:
                del d[k]
            else:
                d.insert(k, rng.randrange(256))
        out.append(('edit', d))
    return out


def mutants(c, sc, classes, orders, dens, many, per):
    """cases of WireTrace with damaged bytes, laid out in files of at most `per`"""
    g = gen.Gen(sc, c.rng, NLEAF)
    src = []
    for cid in classes:
        for bo in orders:
            for d in dens:
                rec = g.rec(cid, d)
                src.append({'bo': bo, 'cid': cid, 'nobj': NLEAF, 'rec': rec, 'wantenc': 1})
    res = c.tlc_batch('WireTrace', src)
    marks = c.tlc_batch('WireMarks', src)
    muts = []
    for e, r, mk in zip(src, res, marks):
        for what, b in damage(c.rng, r['enc'], mk, many):
            muts.append({'bo': e['bo'], 'cid': e['cid'], 'what': what, 'bytes': b})
    # dangling references need the final object count: planned after the files are laid out
    c.rng.shuffle(muts)
    files = []
    for bo in orders:
        part = [m for m in muts if m['bo'] == bo]
        for n in range(0, len(part), per):
            files.append((bo, part[n:n + per]))
    extra = []
    for e in src:
        if c.rng.random() < (1 if many else .7):
            for rec, v in bad_refs(c, sc, e['cid'], e['rec'], NLEAF + 1 + per)[:6 if many else 3]:
                extra.append(dict(bo=e['bo'], cid=e['cid'], rec=rec, nobj=NLEAF, wantenc=1, what='reference to %d' % v))
    er = c.tlc_batch('WireTrace', [{k: v for k, v in x.items() if k != 'what'} for x in extra])
    for bo in orders:
        part = [{'bo': bo, 'cid': x['cid'], 'what': x['what'], 'bytes': r['enc']} for x, r in zip(extra, er) if x['bo'] == bo]
        for n in range(0, len(part), per):
            files.append((bo, part[n:n + per]))
    out = []
    for k, (bo, part) in enumerate(files):
        p, first = pw.spec_file(c, sc, bo, [(m['cid'], bytes(m['bytes'])) for m in part], 'dmg%d.avb' % k)
        nobj = NLEAF + len(part) + 1
        for i, m in enumerate(part):
            m['nobj'] = nobj
        out.append({'path': p, 'muts': part, 'first': first, 'root': nobj})
    cases = [{'bo': m['bo'], 'cid': m['cid'], 'nobj': m['nobj'], 'bytes': m['bytes'], 'dec': 'bytes'}
             for f in out for m in f['muts']]
    for m, r in zip([m for f in out for m in f['muts']], c.tlc_batch('WireTrace', cases)):
        m['ok'], m['why'], m['rec'] = r['ok'], r['why'], r['dec']
    return out


def odd(x):
    """a rate outside what writers produce, or a reference that is not a leaf"""
    return isinstance(x, list) and len(x) == 3 and all(isinstance(v, int) for v in x) and not isinstance(x[0], bool)


def unusual(sc, m):
    """properties that cannot be compared: unusual rates; all, when references do not name leaves"""
    refs = [0]

    def fn(w):
        n = int.from_bytes(bytes(w), 'big')
        if n > NLEAF:
            refs[0] = 1
        return w
    wire.map_refs(sc, m['cid'], m['rec'] or {}, fn)
    rates = {n for n, (it, need) in sc.props(m['cid']).items()
             if it['op'] == 'fld' and it['t'] == 'exp10' and len((m['rec'] or {}).get(n, [])) == 3}
    return refs[0], rates


def read_all(c, sc, files, src=None, py=base.PURE, ext=False, raw=False, save=0):
    parts = [files[i::6] for i in range(6)]
    hs = []
    for part in parts:
        if part:
            job = {'do': 'damage', 'schema': pw.sc_path(c), 'files': [
                {'path': f['path'], 'ext': ext, 'raw': raw, 'nleaf': NLEAF, 'root': f['root'], 'save': save,
                 'read': [[m['cid'], f['first'] + i] for i, m in enumerate(f['muts'])]} for f in part]}
            hs.append((part, c.driver_start('drv_wire.py', job, src=src, py=py)))
    for part, h in hs:
        r = c.accept(c.driver_wait(h), 'drv_wire.py')
        if r is None:
            continue
        for f, x in zip(part, r):
            if 'err' in x:
                raise base.Machinery(x['err'])
            if 'open' in x:
                c.violation('open', 'a file with damaged objects besides a sound root cannot be opened: %s' % x['open'],
                            {'file': f['path'], 'error': x['open']})
                continue
            if x['others']:
                c.violation('others', 'sound objects cannot be read after damaged ones: %s' % str(x['others'])[:200], x['others'])
            for m, o in zip(f['muts'], x['objs']):
                m['ext' if ext else 'pure'] = o
    return files


def c21_objects(c, sc):
    files = mutants(c, sc, sorted(sc.classes), ['little', 'big'], [1.0, None], c.thorough, 100)
    read_all(c, sc, files, save=3)
    n = acc = 0
    for f in files:
        for m in f['muts']:
            o = m.get('pure')
            if o is None:
                continue
            n += 1
            tell = {'class': m['cid'], 'order': m['bo'], 'damage': m['what'], 'why': m['why'], 'bytes': bytes(m['bytes']).hex(),
                    'read': o}
            if not m['ok']:
                if 'e' not in o:
                    c.violation('%s:%s' % (m['cid'], m['why']), 'a malformed %s (%s) was read: %s' % (m['cid'], m['why'], m['what']), tell)
                elif 'again' in o or 'saved' in o:
                    c.violation('%s:kept' % m['cid'], 'a refused %s was kept: %s' % (m['cid'], o.get('again', 'saved')), tell)
                continue
            acc += 1
            refs, rates = unusual(sc, m)
            if 'e' in o:
                if not rates:
                    c.violation('%s:refused' % m['cid'], 'a well-formed %s is refused: %s' % (m['cid'], o['e']), tell)
                continue
            if refs:
                continue
            if 'project' in o:
                c.violation('%s:values' % m['cid'], 'values of a %s cannot be looked at: %s' % (m['cid'], o['project']), tell)
                continue
            d = [x for x in pw.cdiff(m['rec'], o['rec']) if x not in rates]
            if d:
                c.violation('%s:%s' % (m['cid'], ','.join(d)), 'a %s reads differently: %s' % (m['cid'], ','.join(d)),
                            dict(tell, want={k: (m['rec'] or {}).get(k) for k in d}))
    return n, acc


# ---- the file as a whole ----------------------------------------------------
def damaged_files(c, sc):
    """(label, bytes) of small files damaged in header, chunk table or length"""
    rng = c.rng
    out = []
    for bo in ('little', 'big'):
        e = '<' if bo == 'little' else '>'
        import struct
        root = ('ABIN', pw.root_bytes(c, sc, bo))
        leaf = [('ATTR', avbfile.attr_bytes(bo, {'id': n})) for n in (1, 2, 3)]
        lasts = [leaf[:2] + [root], leaf[:1] + [root] + leaf[1:]]
        for chunks in lasts:
            ri = chunks.index(root) + 1
            b = avbfile.build(bo, chunks, ri)
            out.append(('sound', b))
            head = len(avbfile.header(bo, len(chunks), ri))
            cnt = 8 + 4 + 2 + 7 + 1 + 2 + 19
            starts = [head]
            for cid, x in chunks:
                starts.append(starts[-1] + 8 + len(x))
            step = 1 if c.thorough else 3
            for k in range(0, len(b), step):
                out.append(('cut at %d' % k, b[:k]))
            for k in starts[:-1]:
                for j in (0, 3, 4, 7, 8, 9):
                    out.append(('cut at %d' % (k + j), b[:k + j]))
            for k in range(head):
                for v in {b[k] ^ 1, b[k] ^ 0x80, 0, 255, rng.randrange(256)}:
                    if v != b[k] and (c.thorough or rng.random() < .6):
                        out.append(('header byte %d: %d' % (k, v), b[:k] + bytes([v]) + b[k + 1:]))
            # whole fields: every 2 and 4 bytes of the header
            for w in (2, 4):
                for k in range(head - w + 1):
                    for x in (bytes(w), b'\xff' * w, b[k:k + w][::-1], {'little': b'MMMM', 'big': b'IIII'}[bo][:w]):
                        if x != b[k:k + w] and (w == 4 or c.thorough or rng.random() < .25):
                            out.append(('header bytes %d: %s' % (k, x.hex()), b[:k] + x + b[k + w:]))
            for n in (0, 1, len(chunks) - 1, len(chunks) + 1, len(chunks) + 2, 255, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
                for r in (ri, 0, 1, 2, len(chunks), len(chunks) + 1, n, 2 ** 32 - 1):
                    out.append(('count %d root %d' % (n, r), b[:cnt] + struct.pack(e + 'II', n & 0xFFFFFFFF, r & 0xFFFFFFFF) + b[cnt + 8:]))
            for k in starts[:-1]:
                for j in range(8):
                    for v in {b[k + j] ^ 1, b[k + j] ^ 0x20, 0, 255, rng.randrange(256)}:
                        if v != b[k + j]:
                            out.append(('chunk byte %d+%d: %d' % (k, j, v), b[:k + j] + bytes([v]) + b[k + j + 1:]))
            for x in (b'\0', b'abcdefgh', bytes(40)):
                out.append(('surplus after the last chunk', b + x))
                out.append(('surplus after the header', b[:head] + x + b[head:]))
            for _ in range(400 if c.thorough else 60):
                d = bytearray(b)
                for _ in range(rng.randrange(1, 4)):
                    k = rng.randrange(len(d))
                    if rng.random() < .3:
                        del d[k]
                    else:
                        d[k] = rng.randrange(256)
                out.append(('edit', bytes(d)))
    out.append(('empty', b''))
    out.append(('text', b'Domain OBJD AObjDoc'))
    return out


def c21_files(c, sc):
    fs = damaged_files(c, sc)
    res = c.tlc_batch('FileTrace', [{'bytes': list(b)} for w, b in fs])
    parts = [list(range(i, len(fs), 6)) for i in range(6)]
    hs = [(p, c.driver_start('drv_wire.py', {'do': 'open', 'files': [fs[k][1].hex() for k in p]})) for p in parts if p]
    n = refused = 0
    for p, h in hs:
        r = c.accept(c.driver_wait(h), 'drv_wire.py')
        if r is None:
            continue
        for k, o in zip(p, r):
            what, b = fs[k]
            v = res[k]
            n += 1
            tell = {'damage': what, 'bytes': b.hex(), 'specification': v, 'read': o}
            label = what.split(':')[0].rstrip('0123456789+ ')
            if not v['ok']:
                refused += 1
                if 'open' not in o:
                    c.violation('file:%s' % label, 'a damaged file (%s; %s) was opened' % (what, v['why']), tell)
                continue
            if 'open' in o:
                c.violation('file:%s' % label, 'a file with sound header and root (%s) is refused: %s' % (what, o['open']), tell)
                continue
            for j, (x, y) in enumerate(zip(v['objs'], o['objs']), 1):
                if x['ok'] != y[0] or y[2]:
                    c.violation('file:%s:object' % label, 'object %d of a damaged file (%s): specification %s, code %s' % (
                                j, what, x, y), tell)
            if len(v['objs']) != len(o['objs']):
                c.violation('file:count', 'the number of objects differs (%s): %d, %d' % (what, len(v['objs']), len(o['objs'])), tell)
    return n, refused


def c21(c):
    sc = c.schema()
    n, acc = c21_objects(c, sc)
    m, refused = c21_files(c, sc)
    c.cov.update(programs=n + m, disagreements_checked=n + m, damaged_objects=n, damaged_yet_well_formed=acc,
                 damaged_files=m, refused_files=refused, classes=len(sc.classes))


CHECKS = {'C21': (pw.TV, c21)}
