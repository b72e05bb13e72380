#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import vlib, props


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        ck = vlib.Check(prop, tier)
        getattr(props, prop)(ck)
        sys.exit(ck.finish())
    except vlib.CheckError as e:
        print('CHECK-ERROR property=%s %s' % (prop, e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)


main()
