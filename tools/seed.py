"""tools/seed.py ID PROP : reads from stdin a python file defining
   EDITS=[(path, old, new)...], NEEDS, BREAKS, DEMO (python source), PY ('pure'|'ext')
and plants /verif/seeded/ID after confirming it in a scratch copy."""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop = sys.argv[1:3]
ns = {}
exec(sys.stdin.read(), ns)
d = os.path.join(V, 'seeded', sid)
w = tempfile.mkdtemp(prefix='seed-')
r = os.path.join(w, 'repo')
subprocess.check_call(['cp', '-a', '/repo', r])
for path, old, new in ns['EDITS']:
    p = os.path.join(r, path)
    s = open(p).read()
    assert s.count(old) == 1, (path, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
os.makedirs(d, exist_ok=True)
open(os.path.join(d, 'patch.diff'), 'wb').write(subprocess.check_output(['git', '-C', r, 'diff']))
open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO'])
py = {'pure': '/opt/venv/bin/python', 'ext': '/opt/venv-ext/bin/python'}[ns.get('PY', 'pure')]
open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 TZ=UTC LC_ALL=C.UTF-8
timeout 120 %s "$here/demo.py" "$work"
''' % py)
json.dump({'property': prop, 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
          open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def run_in_place(expect, label):
    """demo, build and tests need /repo's path; build.sh works on /repo, so swap trees by patch"""
    c = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(label, 'demo exit', c.returncode, c.stdout.decode()[-400:] if (c.returncode != 0) != expect else '')
    return (c.returncode != 0) == expect


def build():
    b = subprocess.run(['bash', '/opt/vp/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if b.returncode:
        print(b.stdout.decode()[-800:])
    return b.returncode == 0


def tests():
    subprocess.run(['bash', '/opt/vp/test.sh', os.path.join(w, 't.json')], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    t = json.load(open(os.path.join(w, 't.json')))
    return len(t['passed'])


ok = True
try:
    ok = build() and run_in_place(False, 'clean') and ok
    subprocess.check_call(['git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff')])
    try:
        ok = build() and ok
        n = tests()
        print('tests passed', n)
        ok = n == 122 and ok
        ok = run_in_place(True, 'patched') and ok
        if '--check' in sys.argv:
            for p in [prop] + sys.argv[sys.argv.index('--check') + 1:]:
                c = subprocess.run([os.path.join(V, 'check'), p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                lines = c.stdout.decode().splitlines()
                print('check', p, 'exit', c.returncode, '|', '\n   '.join(lines[:3])[:700])
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
        build()
finally:
    shutil.rmtree(w)
if not ok:
    shutil.rmtree(d)
    print('REJECTED')
else:
    print('KEPT', sid)
