#!/opt/veriftools/pyvenv/bin/python
"""run.py <property id>: runs the check of one property"""
import importlib
import os
import sys
import traceback
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(H, 'lib'), os.path.join(H, 'checks')]
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
import tycholib


def main():
    if sys.argv[1] == 'setup':
        tycholib.build_sweep('plain')
        return 0
    return importlib.import_module(sys.argv[1]).main()


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
