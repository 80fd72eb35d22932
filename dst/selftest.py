"""Determinism of the machinery: the same seed must give the same event logs, whatever the process layout.

A sample of every check's quick plan runs in separate interpreters with other hash seeds, other
numbers of processes and in another order; the per-job log digests must agree.
"""
import json
import os
import subprocess
import sys

from dst import core

CHILD = '''
import json, sys
sys.path.insert(0, %r)
from dst import core
core.boot()
check, n, procs, back = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
jobs = core.load(check).plan('quick', 1)
jobs = jobs[::max(1, len(jobs) // n)][:n]
pool = core.Pool(procs)
out = {}
for r in pool.map(check, jobs[::-1] if back else jobs):
    out[json.dumps(r['job'], sort_keys=True, default=str)] = [r['status'], r['digest']]
pool.close()
print('RESULT' + core.digest(sorted(out.items())), len(out))
'''


def main(ids):
    ids = ids or ['C%02d' % k for k in range(1, 17)]
    bad = 0
    for c in ids:
        seen = set()
        for procs, back, hs in ((1, 0, '0'), (4, 0, '1'), (3, 1, 'random')):
            env = dict(os.environ, PYTHONHASHSEED=hs)
            p = subprocess.run([sys.executable, '-c', CHILD % core.VERIF, c, '24', str(procs), str(back)], env=env,
                               capture_output=True, text=True)
            line = [x for x in p.stdout.splitlines() if x.startswith('RESULT')]
            seen.add(line[0] if line else 'failed: ' + p.stderr[-300:])
        ok = len(seen) == 1 and 'failed' not in next(iter(seen))
        bad += not ok
        print(c, 'deterministic' if ok else 'DIFFERS %s' % seen, flush=True)
    return int(bad > 0)
