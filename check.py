#!/usr/bin/env python3
"""check.py <property> : runs the check of one property (VERIF_TIER, VERIF_SEED). check.py replay <file>: replays a violation."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
    from vt import driver, registry
    if len(sys.argv) >= 3 and sys.argv[1] == 'replay':
        o, _ = driver.replay_file(sys.argv[2])
        sys.exit(1 if o in ('mismatch', 'crash', 'hang') else 0 if o == 'ok' else 2)
    if 'thorough' in sys.argv[2:]:
        os.environ['VERIF_TIER'] = 'thorough'
    try:
        sys.exit(registry.run(sys.argv[1]))
    except driver.Infra as e:
        print('error:', e)
        sys.exit(2)
