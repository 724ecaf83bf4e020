#!/usr/bin/env python3
"""check.py ID [quick|thorough]   exit 0 held / 1 violation / 2 tool error"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
import vlib
import props

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    p = props.PROPS[pid]
    try:
        rc = p['run'](pid, p, tier, seed) if 'run' in p else vlib.run_property(pid, p, tier, seed)
    except vlib.ToolError as e:
        print('TOOL-ERROR: ' + str(e), file=sys.stderr)
        sys.exit(2)
    sys.exit(rc)

main()
