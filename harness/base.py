"""Shared machinery of the checks: scratch space, TLC, drivers, verdicts, evidence."""
import json, os, random, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
PURE = '/opt/venv/bin/python'
EXTPY = '/opt/venv-ext/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar'
CMJAR = '/opt/veriftools/tla/CommunityModules-deps.jar'


# TLC could not evaluate an expression on the data it was given / TLC itself gave up
UNDEFINED = ('Attempted to', 'outside its domain', 'out of range', 'evaluating the nested', 'The first argument', 'The second argument',
             'The third argument', 'CHOOSE x', 'which is not in the domain', 'In evaluation', 'TLC encountered')
BROKE = ('time limit', 'OutOfMemory', 'StackOverflow', 'GC overhead', 'Java heap', 'arse error', 'Semantic error', 'Unknown operator', 'Could not')


class Machinery(Exception):
    """something of ours broke: neither a pass nor a violation"""


class Check(object):
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.violations = []
        self.known_hits = []
        self.cov = {}
        self.assumptions = []
        self.known = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
                      if k['property'] == pid]
        self.replaydir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(self.replaydir, exist_ok=True)
        self.tlc_states = 0
        self.tlc_runs = 0
        self.samples = []
        self.procs = []

    # ---- verdicts -----------------------------------------------------
    def violation(self, key, what, detail):
        """key: short stable identification of the failing input / site"""
        for k in self.known:
            if k['match'] == key or (k['match'].endswith('*') and key.startswith(k['match'][:-1])):
                if k['id'] not in [h[0] for h in self.known_hits]:
                    self.known_hits.append((k['id'], k['what']))
                return
        if len(self.violations) < 50:
            path = os.path.join(self.replaydir, '%s-%d.json' % (self.pid, len(self.violations) + 1))
            with open(path, 'w') as fh:
                json.dump({'property': self.pid, 'key': key, 'what': what, 'seed': self.seed,
                           'tier': self.tier, 'detail': detail}, fh, indent=1, default=repr)
            self.violations.append((key, what, path))

    def stop_all(self):
        for p in self.procs:
            if p.poll() is None:
                p.kill()

    def sample(self, x, n=3):
        if len(self.samples) < n:
            self.samples.append(x)

    def finish(self):
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': dict(self.cov), 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        if self.samples and 'samples' not in ev['coverage']:
            ev['coverage']['samples'] = self.samples
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=repr)
        shutil.rmtree(self.dir, ignore_errors=True)
        for kid, what in self.known_hits:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        seen = set()
        for key, what, path in self.violations:
            if what in seen:
                continue
            seen.add(what)
            if len(seen) > 10:
                continue
            print('  %s: %s' % (key, what))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        if not self.violations:
            print('OK property=%s %s wall=%.1fs' % (self.pid, json.dumps({k: v for k, v in self.cov.items()
                  if isinstance(v, (int, bool))}), time.time() - self.t0))
        return 1 if self.violations else 0

    # ---- files --------------------------------------------------------
    def path(self, name):
        return os.path.join(self.dir, name)

    def dump(self, name, obj):
        p = self.path(name)
        with open(p, 'w') as fh:
            json.dump(obj, fh)
        return p

    # ---- TLC ----------------------------------------------------------
    def tlc(self, module, env=None, cfg=None, timeout=600, heap='2g', extra=(), cfgtext=None, ok_codes=(0,)):
        """run TLC on a module of /verif/spec; returns its output text"""
        return self.tlc_wait(self.tlc_start(module, env, cfg, heap, extra, cfgtext), timeout, ok_codes)

    def tlc_start(self, module, env=None, cfg=None, heap='2g', extra=(), cfgtext=None):
        self.tlc_runs += 1
        meta = self.path('tlc%d' % self.tlc_runs)
        os.makedirs(meta)
        if cfgtext is not None:
            cfg = os.path.join(meta, 'gen.cfg')
            with open(cfg, 'w') as fh:
                fh.write(cfgtext)
        elif cfg is None:
            cfg = os.path.join(SPEC, module + '.cfg')
        e = dict(os.environ)
        e.update(env or {})
        out = open(os.path.join(meta, 'out'), 'w')
        cmd = ['java', '-XX:+UseSerialGC', '-Xss64m', '-Xmx' + heap, '-Djava.io.tmpdir=' + meta,
               '-cp', JAR + ':' + CMJAR, 'tlc2.TLC', '-metadir', os.path.join(meta, 'm'),
               '-workers', '1', '-noGenerateSpecTE', '-config', cfg] + list(extra) + [os.path.join(SPEC, module + '.tla')]
        p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=e, cwd=meta)
        self.procs.append(p)
        return (p, meta, module)

    def tlc_wait(self, h, timeout=600, ok_codes=(0,)):
        p, meta, module = h
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            raise Machinery('TLC on %s: time limit' % module)
        with open(os.path.join(meta, 'out')) as fh:
            text = fh.read()
        if p.returncode not in ok_codes:
            raise Machinery('TLC on %s failed (%s):\n%s' % (module, p.returncode,
                            '\n'.join(l for l in text.splitlines() if 'arsing' not in l and 'inting' not in l and 'emantic' not in l)[-6000:]))
        import re
        m = re.findall(r'(\d+) states generated, (\d+) distinct', text)
        if m:
            self.tlc_states += int(m[-1][1])
        m2 = re.findall(r'(\d+) states generated', text)
        self.last_generated = int(m2[-1]) if m2 else 0
        return text

    def tlc_batch(self, module, cases, shards=8, env=None, timeout=600, heap='3g', stuck=None):
        """evaluate a list of cases with a module that reads IOEnv.IN and writes IOEnv.OUT
        (one result per case); sharded over processes.  A recorded case on which the
        specification's functions are not even defined (the code went where the model
        has no state) gets the result `stuck` when one is given."""
        if not cases:
            return []
        shards = max(1, min(shards, (len(cases) + 7) // 8))

        def start(part):
            n = '%s%d' % (module, self.tlc_runs)
            e = {'IN': self.dump(n + '.in', part), 'OUT': self.path(n + '.out')}
            e.update(env or {})
            return self.tlc_start(module, e, heap=heap), e['OUT'], part

        def finish(h, o, part):
            self.tlc_wait(h, timeout)
            with open(o) as fh:
                r = json.load(fh)
            if len(r) != len(part):
                raise Machinery('%s returned %d results for %d cases' % (module, len(r), len(part)))
            return r

        left = [10]

        def search(h, o, part):
            try:
                return finish(h, o, part)
            except Machinery as e:
                if stuck is None or not any(w in str(e) for w in UNDEFINED) or any(w in str(e) for w in BROKE):
                    raise
                if len(part) == 1:
                    left[0] -= 1
                    return [stuck]
                if left[0] <= 0:
                    return [stuck] + [None] * (len(part) - 1)       # enough of them
                k = len(part) // 2
                hs = [start(part[:k]), start(part[k:])]
                return sum([search(*x) for x in hs], [])

        hs = [start(cases[i::shards]) for i in range(shards)]
        res = [None] * len(cases)
        for k, x in enumerate(hs):
            res[k::shards] = search(*x)
        quiet = [] if not isinstance(stuck, dict) else {k: [] for k in stuck}
        return [quiet if r is None and stuck is not None else r for r in res]

    def schema(self):
        from wire import Schema
        p = self.path('schema.json')
        if not os.path.exists(p):
            self.tlc('SchemaExport', {'OUT': p})
        return Schema(p)

    # ---- the code under test -------------------------------------------
    def repo_src(self):
        return os.path.join(REPO, 'src')

    def build_ext(self):
        """copy the tree to scratch and build the compiled readers there"""
        d = self.path('extrepo')
        if os.path.exists(d):
            return os.path.join(d, 'src')
        os.makedirs(d)
        for n in ('setup.py', 'setup.cfg', 'pyproject.toml', 'README.md', 'README.rst', 'LICENSE', 'MANIFEST.in'):
            s = os.path.join(REPO, n)
            if os.path.exists(s):
                shutil.copy(s, d)
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(d, 'src'),
                        ignore=shutil.ignore_patterns('*.so', '__pycache__', '_ext.cpp', '*.egg-info'))
        env = self.env(None)
        env['PYAVB_BUILD_EXT'] = '1'
        r = subprocess.run([EXTPY, 'setup.py', 'build_ext', '--inplace'], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        import glob
        if r.returncode or not glob.glob(os.path.join(d, 'src/avb/_ext*.so')):
            raise Machinery('building the compiled readers failed:\n' + r.stdout.decode('utf8', 'replace')[-3000:])
        return os.path.join(d, 'src')

    def env(self, src):
        e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        e.update({'PYTHONDONTWRITEBYTECODE': '1', 'TZ': 'UTC', 'PYTHONHASHSEED': '0', 'LC_ALL': 'C.UTF-8'})
        if src:
            e['PYTHONPATH'] = src + ':' + HARNESS
        return e

    def driver(self, script, job, src=None, py=PURE, timeout=300, name='job'):
        return self.driver_wait(self.driver_start(script, job, src, py, name), timeout)

    def driver_start(self, script, job, src=None, py=PURE, name='job'):
        self.drv_n = getattr(self, 'drv_n', 0) + 1
        inp = self.dump('%s%d.in' % (name, self.drv_n), job)
        out = self.path('%s%d.out' % (name, self.drv_n))
        work = self.path('%s%d.work' % (name, self.drv_n))
        os.makedirs(work)
        log = open(out + '.log', 'w')
        p = subprocess.Popen([py, '-X', 'utf8', os.path.join(HARNESS, script), inp, out, work], cwd=work,
                             env=self.env(src or self.repo_src()), stdout=log, stderr=subprocess.STDOUT,
                             preexec_fn=os.setsid)
        self.procs.append(p)
        return (p, out, script)

    def driver_wait(self, h, timeout=300):
        """-> the driver's JSON result, or {'hang': True} / {'crash': text}"""
        p, out, script = h
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return {'hang': True}
        if os.path.exists(out):
            with open(out) as fh:
                return json.load(fh)
        with open(out + '.log') as fh:
            text = fh.read()[-3000:]
        return {'crash': text or ('exit %s' % p.returncode)}

    def drive(self, script, job, **kw):
        """driver whose crash or hang is a violation of the property (the code under test
        failed outside every guarded call)"""
        r = self.driver(script, job, **kw)
        return self.accept(r, script)

    def accept(self, r, script):
        if isinstance(r, dict) and 'hang' in r:
            self.violation('hang:' + script, 'the code under test did not finish', r)
            return None
        if isinstance(r, dict) and 'crash' in r:
            self.violation('crash:' + script, 'the code under test stopped the driver', r)
            return None
        return r


def main(pid, level, body):
    c = Check(pid, level)
    try:
        body(c)
    except BaseException as e:
        c.stop_all()
        if not isinstance(e, Machinery):
            shutil.rmtree(c.dir, ignore_errors=True)
            raise
        shutil.rmtree(c.dir, ignore_errors=True)
        sys.stderr.write('MACHINERY property=%s %s\n' % (pid, e))
        return 2
    return c.finish()
