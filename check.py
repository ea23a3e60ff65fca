#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property from /repo's current source."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from pwsa import props
from pwsa.report import AnalysisBroken


def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        k = a.index('--tier'); tier = a[k + 1]; del a[k:k + 2]
    try:
        return props.PROPS[a[0]](tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (a[0], e))
        return 3
    except Exception:
        import traceback
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % a[0])
        return 3


if __name__ == '__main__':
    sys.exit(main())
