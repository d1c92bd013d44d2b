#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on the current tree of /repo."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
import checks


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    os.makedirs(vlib.BUILD, exist_ok=True)
    c = vlib.Check(prop, tier)
    vlib.log('check %s (%s), seed %d' % (prop, tier, vlib.SEED))
    try:
        checks.CHECKS[prop](c)
        for f in checks.known_findings(prop):
            print('KNOWN-FINDING: property=%s %s' % (prop, f), flush=True)
        rc = c.finish()
    except vlib.CheckError as x:
        if c.violations:
            vlib.log('  NOTE: ' + str(x)[:3000])
            rc = c.finish()
        else:
            vlib.log('CHECK ERROR: ' + str(x))
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    vlib.log('check %s: exit %d' % (prop, rc))
    sys.exit(rc)


main()
