import importlib, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base

MODULES = ['p_doc', 'p_wire', 'p_damage', 'p_values', 'p_coll', 'p_bin', 'p_time', 'p_curve', 'p_ids', 'p_create', 'p_crash']


def find(pid):
    for m in MODULES:
        mod = importlib.import_module(m)
        if pid in mod.CHECKS:
            return mod.CHECKS[pid]
    raise SystemExit(2)


if __name__ == '__main__':
    if sys.argv[2:] and sys.argv[2] == 'thorough':
        os.environ['VERIF_TIER'] = 'thorough'
    level, body = find(sys.argv[1])
    sys.exit(base.main(sys.argv[1], level, body))
