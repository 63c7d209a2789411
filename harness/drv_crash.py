"""Driver: saves that are stopped - killed at a change of the disk, failing writes, values and
objects no file can hold, places that cannot be written - and what there is afterwards.

What an undisturbed save of the same document gives is found by a forked twin."""
import ctypes, gc, hashlib, json, os, random, signal, sys
import drv, drv_doc, wire, avb

LIB = ctypes.CDLL(None)
ENOSPC, EIO, EFBIG = 28, 5, 27


class Boom(object):
    """interrupts whoever asks it for a number"""

    def __index__(self):
        raise KeyboardInterrupt()
    __float__ = __int__ = __index__


def slurp(p):
    try:
        with open(p, 'rb') as fh:
            return fh.read()
    except OSError:
        return None


def shown(b):
    return [-1] if b is None else list(b)


def digest(x):
    return hashlib.md5(json.dumps(x, sort_keys=True).encode()).hexdigest()


class Crash(drv_doc.Trace):
    def setup(self, d):
        self.d = d
        self.doc = self.f[d]
        self.log_path = self.work.rstrip('/') + '.log'
        self.root = os.path.realpath(self.work)
        os.makedirs(os.path.join(self.work, 'to'), exist_ok=True)
        self.runs, self.facts, self.m = [], [], 0
        self.stat = {}

    # ---- twins -----------------------------------------------------------
    def twin(self, fn):
        """fn in a forked copy of this process; (exit code, its result)"""
        out = self.log_path + '.twin'
        fds = []
        for n in os.listdir('/proc/self/fd'):
            try:
                if os.readlink('/proc/self/fd/' + n).startswith(self.root + '/'):
                    fds.append((int(n), os.lseek(int(n), 0, os.SEEK_CUR)))
            except OSError:
                pass
        if os.path.exists(out):
            os.remove(out)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                signal.alarm(100)
                r = fn()
                with open(out, 'w') as fh:
                    json.dump(r, fh)
                code = 0
            finally:
                os._exit(code)
        st = os.waitpid(pid, 0)[1]
        # parent and child share the position in open files
        for n, at in fds:
            try:
                os.lseek(n, at, os.SEEK_SET)
            except OSError:
                pass
        code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1
        r = None
        if code == 0:
            with open(out) as fh:
                r = json.load(fh)
        return code, r

    def seen(self):
        nodes, nums, env = self.graph(self.doc.content)
        return digest(nodes)

    def reference(self):
        def go():
            r = {}
            for bo in ('little', 'big'):
                p = os.path.join(self.work, 'to', 'ref-%s.avb' % bo)
                LIB.shim_start(self.root.encode(), self.log_path.encode())
                self.doc.write(p, byte_order=bo)
                r[bo] = LIB.shim_stop()
            return r
        code, r = self.twin(go)
        if code != 0:
            return False
        self.changes = r
        self.whole = {bo: slurp(os.path.join(self.work, 'to', 'ref-%s.avb' % bo)) for bo in r}
        code, self.view0 = self.twin(self.seen)
        return code == 0

    # ---- one stopped save --------------------------------------------------
    def target(self, kind):
        self.m += 1
        p = os.path.join(self.work, 'to', 't%d.avb' % self.m)
        src = self.path[self.d]
        if kind == 'other':
            with open(p, 'wb') as fh:
                fh.write(self.rng.choice([b'old', self.whole['big'], self.whole['little'][:-5], b'\0' * 900]))
        elif kind == 'source':
            p = src
        elif kind == 'link':
            os.symlink(src, p)
        elif kind == 'hard':
            os.link(src, p)
        elif kind == 'dir':
            os.mkdir(p)
        elif kind == 'nodir':
            p = os.path.join(p, 'x.avb')
        return p

    def disk(self):
        names, data = [], {}
        for top, ds, fs in os.walk(self.root):
            for n in fs:
                p = os.path.join(top, n)
                i = str(os.stat(p).st_ino)
                names.append([os.path.relpath(p, self.root), i])
                data[i] = p
        return names, {i: slurp(p) for i, p in data.items()}

    def ops(self):
        out = []
        with open(self.log_path) as fh:
            for line in fh.read().split('\n'):
                w = line.split(' ')
                if w[0] == 'O':
                    out.append({'op': 'open', 'file': w[1], 'new': w[2] == '1', 'trunc': w[3] == '1', 'name': ' '.join(w[4:])})
                elif w[0] == 'W':
                    out.append({'op': 'write', 'file': w[1], 'at': int(w[2]), 'b': list(bytearray.fromhex(w[3] if len(w) > 3 else ''))})
                elif w[0] == 'T':
                    out.append({'op': 'trunc', 'file': w[1], 'n': int(w[2])})
                elif w[0] == 'R':
                    a, b = ' '.join(w[1:]).split('|')
                    out.append({'op': 'rename', 'from': a, 'to': b})
                elif w[0] == 'D':
                    out.append({'op': 'unlink', 'name': ' '.join(w[1:])})
        return out

    def opens(self, p):
        if not os.path.isfile(p):
            return False
        try:
            f = avb.open(p)
        except Exception:
            return False
        f.close()
        return True

    def record(self, kind, p, bo, before, end, ops, cuts=()):
        names, data = before
        used = set(e['file'] for e in ops if 'file' in e)
        name = os.path.relpath(p, self.root)
        used.update(i for n, i in names if n == name)
        used.update(i for n, i in names for e in ops if n in (e.get('from'), e.get('to')))
        self.runs.append({'kind': kind, 'names': names, 'data': [[i, list(b)] for i, b in data.items() if i in used], 'ops': ops,
                          'target': name, 'whole': list(self.whole[bo]), 'end': end, 'after': shown(slurp(p) if os.path.isfile(p) else None),
                          'opened': self.opens(p), 'cuts': list(cuts)})
        self.stat[kind + ' ' + end] = self.stat.get(kind + ' ' + end, 0) + 1

    def fact(self, what, got, want):
        self.facts.append({'what': what, 'got': got, 'want': want})

    def pick_fault(self, bo):
        r = self.rng
        k = r.randrange(self.changes[bo] + (r.random() < .1))
        return k, r.choice([-1, -1, 0, 1, 7, 100, r.randrange(3000), len(self.whole[bo]) - 1])

    def kill(self, bo, kind, k, cut):
        """a twin that dies at the k-th change"""
        p = self.target(kind)
        before = self.disk()
        src = self.path[self.d]
        was = slurp(src) if src else None

        def go():
            LIB.shim_start(self.root.encode(), self.log_path.encode())
            LIB.shim_arm(ctypes.c_long(k), ctypes.c_long(cut), 0, 1)
            self.doc.write(p, byte_order=bo)
            return LIB.shim_stop()
        code, r = self.twin(go)
        self.record('kill-' + kind, p, bo, before, {77: 'killed', 0: 'returned'}.get(code, 'raised'), self.ops())
        self.after(kind, src, was)
        if src and slurp(src) != was:
            # the twin's disk, not ours
            with open(src, 'r+b') as fh:
                fh.truncate()
                fh.write(was)

    def after(self, kind, src, was):
        if src and kind not in ('source', 'link', 'hard'):
            self.fact('source: the opened file is as it was', hashlib.md5(slurp(src) or b'').hexdigest(), hashlib.md5(was).hexdigest())

    def stopped(self, how, bo, kind, arm=None):
        p = self.target(kind)
        before = self.disk()
        src = self.path[self.d]
        was = slurp(src) if src else None
        LIB.shim_start(self.root.encode(), self.log_path.encode())
        if arm:
            LIB.shim_arm(ctypes.c_long(arm[0]), ctypes.c_long(arm[1]), arm[2], arm[3])
        end = 'returned'
        try:
            self.doc.write(p, byte_order=bo)
        except BaseException as e:
            end = 'raised'
            del e
        LIB.shim_stop()
        self.record('%s-%s' % (how, kind), p, bo, before, end, self.ops())
        self.after(kind, src, was)
        if src and kind in ('source', 'link', 'hard') and slurp(src) != was:
            self.path[self.d] = None

    def kinds(self):
        return self.rng.choice(['new', 'new', 'other'] + (['source', 'source', 'link', 'hard'] if self.path[self.d] else []))

    def disturb(self):
        r = self.rng
        bo = r.choice(['little', 'big'])
        how = r.choice(['fault', 'fault', 'fault', 'object', 'object', 'object', 'foreign', 'header', 'place'])
        if how == 'fault':
            k, cut = self.pick_fault(bo)
            self.stopped('fault', bo, self.kinds(), (k, cut, r.choice([ENOSPC, EIO, EFBIG]), r.random() < .5))
        elif how == 'place':
            self.stopped('place', bo, r.choice(['dir', 'nodir']))
        elif how == 'header':
            n = r.choice(['creator_version', 'last_save'])
            old = getattr(self.doc, n)
            setattr(self.doc, n, r.choice([None, u'\u65e5', 5]))
            self.stopped('header', bo, self.kinds())
            setattr(self.doc, n, old)
        elif how == 'foreign':
            g = avb.open()
            at, o = self.walk(-self.d, d=self.d)
            spots = [p for k, p, t, par in self.locs(o) if k == 'leaf' and t == 'ref']
            if not spots:
                return
            p = r.choice(spots)
            x = self.value(o, p[:-1])
            old = drv_doc.get(x, p[-1])
            self.pins[self.d].append((o, x, old))
            drv_doc.put(x, p[-1], g.create.Attributes())
            self.stopped('foreign', bo, self.kinds())
            drv_doc.put(x, p[-1], old)
        else:
            spots = []
            for o in self.sample_objects():
                mine = [(o, p, t) for k, p, t, par in self.locs(o) if k == 'leaf' and t in self.BAD and t != 'ref'
                        and p[-1] != ['p', '#'] and drv_doc.cid_of(o) != 'ATTR']
                if mine:
                    spots.append(r.choice(mine))
            if not spots:
                return
            o, p, t = r.choice(spots)
            x = self.value(o, p[:-1])
            old = drv_doc.get(x, p[-1])
            if isinstance(old, bool):
                return
            self.pins[self.d].append((o, x))
            boom = r.random() < .3 and t in ('s16', 'u16', 's32', 'u32', 'u8', 's8')
            try:
                drv_doc.put(x, p[-1], Boom() if boom else self.BAD[t])
            except Exception:
                return
            self.stopped('interrupt' if boom else 'object', bo, self.kinds())
            drv_doc.put(x, p[-1], old)
        if r.random() < .3:
            gc.collect()
        if r.random() < .4:
            self.navigation()
        if r.random() < .35:
            self.later(r.choice(['little', 'big']))

    def sample_objects(self):
        nodes, nums, env = self.graph(self.doc.content)
        q = env.queue
        return self.rng.sample(q, min(5, len(q)))

    def navigation(self):
        try:
            got = self.seen()
        except drv_doc.Stop:
            got = 'wrong: %s' % self.ev[-1].get('what')
        except Exception as e:
            got = str(drv.err(e))
        self.fact('navigation: the document in memory is as it was', got, self.view0)

    def later(self, bo):
        p = self.target('new')
        try:
            self.doc.write(p, byte_order=bo)
            got = hashlib.md5(slurp(p)).hexdigest()
        except Exception as e:
            got = str(drv.err(e))
        self.fact('later: a later save writes what an undisturbed one does', got, hashlib.md5(self.whole[bo]).hexdigest())

    def every_cut(self, bo, step):
        """every image an undisturbed save goes through, offered to the reader"""
        p = self.target('new')
        before = self.disk()

        def go():
            LIB.shim_start(self.root.encode(), self.log_path.encode())
            self.doc.write(p, byte_order=bo)
            return LIB.shim_stop()
        self.twin(go)
        ops, data, cuts = self.ops(), {}, []
        q = os.path.join(self.work, 'image.avb')
        for j, e in enumerate(ops):
            if e['op'] == 'open' and (e['new'] or e['trunc']):
                data[e['file']] = bytearray()
            if e['op'] != 'write':
                continue
            old = data.setdefault(e['file'], bytearray())
            # a change of a few bytes in place is taken to happen at once
            whole_only = len(e['b']) <= 16 and e['at'] < len(old)
            for n in ([] if whole_only else range(0, len(e['b']), step)):
                img = bytearray(old)
                img[e['at']:e['at'] + n] = bytearray(e['b'][:n])
                with open(q, 'wb') as fh:
                    fh.write(img)
                cuts.append({'op': j + 1, 'n': n, 'opened': self.opens(q)})
            old[e['at']:e['at'] + len(e['b'])] = bytearray(e['b'])
        if os.path.exists(q):
            os.remove(q)
        self.record('cuts', p, bo, before, 'returned', ops, cuts)
        self.stat['cut images'] = self.stat.get('cut images', 0) + len(cuts)

    def crash(self, start, plan):
        self.run_script(start)
        if 1 not in self.f:
            return None
        self.setup(1)
        if self.path[1]:
            self.path[1] = os.path.abspath(self.path[1])
        if self.path[1] and self.rng.random() < .2:
            # the opened file gets another name
            q = os.path.join(self.work, 'moved.avb')
            os.rename(self.path[1], q)
            self.path[1] = q
        if self.path[1] and self.rng.random() < .2:
            os.chdir(os.path.join(self.work, 'to'))
        if not self.reference():
            for d in list(self.f):
                self.close(d)
            return {'runs': [], 'facts': [], 'stat': {'not saved': 1}}
        if plan.get('cuts'):
            self.every_cut(self.rng.choice(['little', 'big']), plan['cuts'])
        bo = self.rng.choice(['little', 'big'])
        for k in range(self.changes[bo]):
            self.kill(bo, self.kinds(), k, self.rng.choice([-1, 0, 1, 5, 60, self.rng.randrange(2000)]))
        for _ in range(plan['disturb']):
            try:
                self.disturb()
            except drv_doc.Stop:
                break
            except Exception as e:
                self.fact('navigation: the document in memory is as it was', str(drv.err(e)), self.view0)
                break
        self.navigation()
        for bo in ('little', 'big'):
            self.later(bo)
        for d in list(self.f):
            self.close(d)
        return {'runs': self.runs, 'facts': self.facts, 'stat': self.stat}

    def run_script(self, start):
        try:
            for d, p in sorted(start.items()):
                if p is None:
                    self.new(int(d))
                else:
                    with open(p, 'rb') as fh:
                        self.open(int(d), p, list(fh.read()))
            names = sorted(self.prof['script'])
            for _ in range(self.prof['steps']):
                getattr(self, self.rng.choices(names, [self.prof['script'][n] for n in names])[0])()
        except drv_doc.Stop:
            pass


def main(job, work):
    import shutil
    assert hasattr(LIB, 'shim_start'), 'not preloaded'
    sc = wire.Schema(job['schema'])
    out = []
    for t in job['traces']:
        w = os.path.join(work, 't%d' % len(out))
        os.makedirs(w)
        os.chdir(w)
        start = {}
        for d, p in t['start'].items():
            start[d] = None
            if p is not None:
                start[d] = os.path.join(w, 'in%s.avb' % d) if t['seed'] % 4 else 'in%s.avb' % d
                with open(p, 'rb') as a, open(start[d], 'wb') as b:
                    b.write(a.read())
        tr = Crash(sc, t['seed'], w, t['prof'])
        out.append(tr.crash(start, t['plan']))
        del tr
        os.chdir(work)
        shutil.rmtree(w)
    return out


if __name__ == '__main__':
    drv.run(main)
