#!/usr/bin/env python3
"""run.py check <ID> [quick|thorough]  |  run.py replay <file>  |  run.py selftest [ids...]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'


def main(argv):
    from dst import core
    if argv[0] == 'check':
        tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        return core.check_main(argv[1], tier, int(os.environ.get('VERIF_SEED', '1')))
    if argv[0] == 'replay':
        return core.replay_main(argv[1])
    if argv[0] == 'selftest':
        from dst import selftest
        return selftest.main(argv[1:])
    print(__doc__)
    return 2


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
