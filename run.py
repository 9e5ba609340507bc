#!/opt/venv/bin/python
"""Entry point: run.py PROPERTY [--tier T] | run.py --replay FILE."""
import argparse
import os
import sys

os.environ.setdefault('PYTHONHASHSEED', '0')
for v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only', nargs='*')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--selftest', action='store_true')
    a = ap.parse_args()
    from vf import env

    env.setup()
    from vf import core

    if a.selftest:
        sys.exit(core.selftest())
    if a.replay:
        sys.exit(core.main_replay(a.replay))
    sys.exit(core.main_check(a.property, a.tier, a.seed, a.only, a.scale,
                             a.jobs))
