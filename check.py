#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property of /repo's current tree. check.py list / check.py all"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import driver, props
if __name__ == '__main__':
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if sys.argv[1] == 'list':
        print('\n'.join(p['id'] for p in props.PROPS))
        sys.exit(0)
    if sys.argv[1] == 'all':
        rc = 0
        for p in props.PROPS:
            rc |= driver.main(p, tier, seed)
        sys.exit(rc)
    m = [p for p in props.PROPS if p['id'] == sys.argv[1]]
    if not m:
        print('unknown property')
        sys.exit(2)
    sys.exit(driver.main(m[0], tier, seed))
