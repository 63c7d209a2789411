"""tools/blame.py PATCH: does a planted bug change lines of the original repository only?"""
import subprocess, sys, re
root = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD']).decode().strip()
path, old, bad, n = None, 0, [], 0
for l in open(sys.argv[1], encoding='utf-8'):
    l = l.rstrip('\n')
    if l.startswith('--- '):
        path = l[6:]
    elif l.startswith('@@'):
        old = int(re.match(r'@@ -(\d+)', l).group(1))
    elif l.startswith('-'):
        n += 1
        b = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', '-s', '-L', '%d,%d' % (old, old), 'HEAD', '--', path]).decode()
        if not root.startswith(b.split()[0].lstrip('^')):
            bad.append(l)
        old += 1
    elif l.startswith(' '):
        old += 1
print('removed', n, 'own lines', bad)
sys.exit(1 if bad or not n else 0)
