#!/usr/bin/env python3
"""check.py <property id>: builds /repo's working tree, drives it, decides the property, writes evidence."""
import os, sys, traceback, glob, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, checks

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = vlib.Ctx(prop, tier, seed)
    level = checks.LEVEL.get(prop, 'model_checking')
    try:
        checks.CHECKS[prop](c)
    except vlib.Violation as v:
        c.evidence(level, 1)
        print(v.what)
        print('VIOLATION property=%s replay=%s' % (prop, v.replay))
        return 1
    except vlib.CheckError as e:
        print('CHECK ERROR:', e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    for k in c.known: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    c.evidence(level, 0)
    if not os.environ.get('VERIF_KEEP'):
        for f in glob.glob(c.out + '/*.ndjson'): os.remove(f)
    c.log('OK', prop, {k: v for k, v in c.cov.items() if k != 'samples'})
    return 0

sys.exit(main())
