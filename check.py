#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough]

Decides one property from /repo's current sources and writes /verif/evidence/<id>.json.
exit 0: held on everything analysed;  exit 1: VIOLATION line(s);  exit 2: the check itself could not run."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.setrecursionlimit(30000)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    import load
    import core
    try:
        mod = importlib.import_module('rules.' + pid.lower())
        P = load.load(mod.TUS)
        R = core.Result(pid, tier)
        mod.run(P, R)
        R.selfcheck(mod)
    except (load.LoadError, core.CheckError) as ex:
        print('ERROR property=%s %s' % (pid, ex))
        return 2
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s internal error' % pid)
        return 2
    known = core.known_findings(pid)
    new, old = [], []
    for f in R.findings:
        (old if f.key in known else new).append(f)
    R.write_evidence(time.time() - t0, new, old)
    for f in old:
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, known[f.key], f.where()))
    print('property=%s analysed: %s' % (pid, R.summary()))
    if new:
        d = os.path.join(os.environ.get('VERIF_OUT', HERE), 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.txt' % pid)
        with open(path, 'w') as fh:
            for f in new:
                fh.write('%s\n  %s\n  key: %s\n  rule: %s\n' % (f.where(), f.msg, f.key, f.rule))
        for f in new[:20]:
            print('  %s: %s [key %s]' % (f.where(), f.msg, f.key))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


sys.exit(main())
