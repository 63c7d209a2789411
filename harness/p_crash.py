"""Stopped saves (C20) against AvbDisk."""
import os, subprocess
import base, p_doc
import p_wire as pw

SCRIPT = {'edit': 20, 'create': 3, 'hold': 3, 'drop': 3, 'gc': 1, 'view': 1, 'look': 2, 'copies': 1, 'save': 1}


def shim(c):
    so = c.path('diskshim.so')
    r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(base.HARNESS, 'diskshim.c'), '-ldl'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise base.Machinery('building the disk shim failed:\n' + r.stdout.decode('utf8', 'replace')[-2000:])
    return so


def c20(c):
    c.tlc('Save')
    sc = c.schema()
    so = shim(c)
    n = 1000 if c.thorough else 112
    prof = {'script': SCRIPT, 'steps': 14, 'again': 0, 'shown': False, 'over': .2, 'fileobj': True}
    traces = p_doc.traces_of(c, sc, n, prof, new=.2, size=(3, 12)) + p_doc.traces_of(c, sc, n // 12, prof, new=0, size=(60, 150))
    traces += p_doc.traces_of(c, sc, n // 4, dict(prof, steps=0), new=0, size=(3, 12))
    for i, t in enumerate(traces):
        t['plan'] = {'disturb': 4 if n <= i < n + n // 12 else 10, 'cuts': (1 if c.thorough or i < 4 else 11) if i < n // 4 else 0}
    parts = [traces[i::8] for i in range(8)]
    os.environ['LD_PRELOAD'] = so
    try:
        hs = [c.driver_start('drv_crash.py', {'schema': pw.sc_path(c), 'traces': p}) for p in parts]
    finally:
        del os.environ['LD_PRELOAD']
    cases, of = [], []
    for p, h in zip(parts, hs):
        r = c.accept(c.driver_wait(h, 800), 'drv_crash.py')
        for t, x in zip(p, r or []):
            if x:
                cases.append(x)
                of.append(t)
    stat = {}
    for x in cases:
        for k, v in x.pop('stat').items():
            stat[k] = stat.get(k, 0) + v
    res = c.tlc_batch('DiskTrace', cases, stuck={'runs': [], 'facts': [{'what': 'the changes of the disk fit no state'}]})
    runs = facts = unlogged = 0
    for t, x, r in zip(of, cases, res):
        runs += len(x['runs'])
        facts += len(x['facts'])
        for run, bad in zip(x['runs'], r['runs']):
            for b in bad:
                if b['what'] == 'log':
                    unlogged += 1
                    continue
                c.violation('%s %s' % (b['what'], run['kind']), b['what'], {'trace': t, 'kind': run['kind'], 'end': run['end'], 'complaint': b,
                            'changes': [{k: v for k, v in e.items() if k != 'b'} for e in run['ops']]})
        for b in r['facts']:
            c.violation(b['what'], b['what'], {'trace': t, 'fact': b, 'runs': [[q['kind'], q['end']] for q in x['runs']]})
    if runs and unlogged > runs // 20:
        c.cov['changes_not_seen'] = unlogged
    c.cov.update(programs=len(cases), disagreements_checked=runs + facts + stat.get('cut images', 0), stopped_saves=runs, facts=facts, how=stat)


CHECKS = {'C20': (pw.TV, c20)}
