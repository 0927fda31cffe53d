#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property of /repo's current tree."""
import sys, os, json, time, shutil, tempfile, re
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
PY = '/opt/veriftools/pyvenv/bin/python'
try:
    import z3
except ImportError:
    os.execv('/usr/bin/env', ['/usr/bin/env', 'python3-vt'] + sys.argv)
from engine import bounded
def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(VERIF + '/evidence', exist_ok=True); os.makedirs(VERIF + '/replays', exist_ok=True)
    from engine import driver
    rc = driver.check(pid, tier, seed, t0)
    sys.stdout.flush()
    return rc
if __name__ == '__main__':
    sys.exit(main())
