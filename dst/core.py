"""Runner: seeded plan -> fan-out over processes -> verdict, minimised replay, evidence.

Every job is a JSON-able dict.  `run(job, rec)` must be a pure function of the job and of
the code under test.  Jobs either check histories exactly (raise Violation) or accumulate
zero-mean test functions (rec.acc) that are judged per group in two stages.
"""
import collections
import contextlib
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DST_REPO', '/repo')
Z1, Z2, STAGE2 = 3.8, 4.8, 4      # stage thresholds and sample multiplier of stage 2
JOB_WALL = int(os.environ.get('DST_JOB_WALL', '150'))


class Violation(Exception):
    """The property is broken; `kind` is the class kept while minimising."""

    def __init__(self, kind, detail='', **data):
        super().__init__(kind + (': ' + detail if detail else ''))
        self.kind, self.detail, self.data = kind, detail, data


class NoProgress(BaseException):
    """Raised inside the code under test when a run exceeds its draw or wall budget."""


class Alarm(NoProgress):
    pass


def skip(rec, job, why, most=.04):
    """A sample of a law job cost too much; fine if rare, no progress if common."""
    rec.count('skipped')
    rec.count('probe:samples skipped as too costly')
    # A single job may be unlucky (few samples, dear parameters): the line is drawn where chance cannot reach it.
    if rec.counts['skipped'] > max(8, 3 * most * job['n']):
        raise NoProgress('%d of at most %d samples exceed the work budget' % (rec.counts['skipped'], job['n']))


def derive(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return int.from_bytes(h, 'big') >> 1


def rng(*parts):
    return np.random.Generator(np.random.PCG64(derive(*parts)))


def digest(obj):
    h = hashlib.blake2b(digest_size=12)
    _feed(h, obj)
    return h.hexdigest()


def _feed(h, o):
    """Canonical, type-tolerant bytes of nested results (arrays, tuples, lists, scalars)."""
    if o is None:
        h.update(b'N')
    elif isinstance(o, (bool, np.bool_, int, np.integer, float, np.floating)):
        h.update(b'f' + np.float64(o).tobytes())
    elif isinstance(o, str):
        h.update(b's' + o.encode())
    elif isinstance(o, np.ndarray):
        if o.dtype == object:
            _feed(h, list(o))
        elif o.ndim == 0:
            _feed(h, o.item())
        else:
            h.update(b'[')
            for x in o:
                _feed(h, x) if o.ndim > 1 else h.update(b'f' + np.float64(x).tobytes())
            h.update(b']')
    elif isinstance(o, dict):
        for k in sorted(o, key=str):
            _feed(h, str(k)), _feed(h, o[k])
    elif isinstance(o, (list, tuple)):
        h.update(b'[')
        for x in o:
            _feed(h, x)
        h.update(b']')
    else:
        raise TypeError('cannot digest %r' % type(o))


class Rec:
    """What one run records: event log digest, counters, states reached, law accumulators."""

    def __init__(self):
        self.h = hashlib.blake2b(digest_size=12)
        self.n_events = 0
        self.counts = collections.Counter()
        self.states = set()
        self.accs = {}
        self.tail = collections.deque(maxlen=40)

    def log(self, *event):
        self.n_events += 1
        self.h.update(repr(event).encode())
        self.tail.append(event)

    def count(self, kind, n=1):
        self.counts[kind] += n

    def state(self, *key):
        if len(self.states) < 4000:
            self.states.add(digest(list(key)))

    def acc(self, name, values, var=None):
        """Accumulate a test function whose mean is zero if the property holds."""
        v = np.asarray(values, float).ravel()
        a = self.accs.setdefault(name, [0, 0.0, 0.0, 0.0])
        a[0] += len(v)
        a[1] += float(np.sum(v))
        a[2] += float(np.sum(v * v))
        if var is not None:
            a[3] += float(var) * len(v)

    def acc_pit(self, name, u, bins=8):
        """Accumulate functions of values that should be iid uniform."""
        u = np.asarray(u, float).ravel()
        if not len(u):
            return
        u = np.clip(u, 0, 1)
        c = u - .5
        self.acc(name + '|mean', c, 1 / 12)
        self.acc(name + '|var', c * c - 1 / 12, 1 / 180)
        self.acc(name + '|c1', np.cos(2 * np.pi * u), .5)
        self.acc(name + '|s1', np.sin(2 * np.pi * u), .5)
        self.acc(name + '|c2', np.cos(4 * np.pi * u), .5)
        self.acc(name + '|s2', np.sin(4 * np.pi * u), .5)
        k = np.minimum((u * bins).astype(int), bins - 1)
        for b in range(bins):
            p = 1 / bins
            self.acc('%s|bin%d' % (name, b), (k == b) - p, p * (1 - p))

    def acc_choice(self, name, ix, probs, min_exp=0.02):
        """Accumulate indicators of a discrete outcome with known probabilities."""
        probs = np.asarray(probs, float)
        ix = np.asarray(ix)
        rest = []
        for i, p in enumerate(probs):
            if p < min_exp:
                rest.append(i)
            elif p < 1 - 1e-9:
                self.acc('%s=%d' % (name, i), (ix == i) - p, p * (1 - p))
        p = probs[rest].sum() if rest else 0
        if p >= min_exp:
            self.acc('%s=rare' % name, np.isin(ix, rest) - p, p * (1 - p))


def zscores(accs):
    out = {}
    for name, (n, s1, s2, v0) in accs.items():
        if n < 30:
            continue
        m = s1 / n
        var = max(s2 / n - m * m, v0 / n)
        # guard against functions that are (numerically) constant
        if var * n < 1e-18 * max(1.0, s2):
            var = 0
        if var <= 1e-26:
            out[name] = 0.0 if abs(m) < 1e-9 else math.copysign(99.0, m)
        else:
            out[name] = m / math.sqrt(var / n)
    return out


def merge_accs(dst, src):
    for k, a in src.items():
        d = dst.setdefault(k, [0, 0.0, 0.0, 0.0])
        for i in range(4):
            d[i] += a[i]


# ----------------------------------------------------------------------------- running

def classify(exc):
    """Name the innermost frame of the code under test an exception passed through."""
    tb, where = exc.__traceback__, None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if '/ctbayes/' in fn and fn.startswith(REPO):
            where = '%s:%s' % (fn[len(REPO) + 1:], tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return where


def run_job(args):
    """Run one job in the current process; returns a plain dict."""
    check_id, job = args
    check = load(check_id)
    rec = Rec()
    out = {'job': job, 'status': 'ok', 'kind': None, 'msg': ''}
    t0 = time.time()

    def on_alarm(signum, frame):
        raise Alarm('no answer within %d s of processor time' % JOB_WALL)

    # processor time, so that a loaded machine does not matter
    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, JOB_WALL)
    try:
        from dst import world
        world.reset(derive(check_id, job.get('seed', 0), 'ambient'))
        check.run(job, rec)
    except Violation as e:
        out.update(status='violation', kind=e.kind, msg=str(e))
    except NoProgress as e:
        out.update(status='violation', kind='no-progress', msg='no progress: %s' % e)
    except BaseException as e:      # noqa
        where = classify(e)
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])
        if where and not isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            out.update(status='violation', kind='exception:%s' % type(e).__name__,
                       msg='unexpected %s in %s: %s' % (type(e).__name__, where, e), tb=tb)
        else:
            out.update(status='error', kind=type(e).__name__, msg=tb)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        try:
            from dst import world
            world.uninstall()
        except BaseException:       # noqa
            pass
    out.update(counts=dict(rec.counts), states=rec.states, accs=rec.accs,
               digest=rec.h.hexdigest(), events=rec.n_events, wall=time.time() - t0,
               tail=[repr(e) for e in list(rec.tail)[-12:]] if out['status'] != 'ok' else [])
    return out


def load(check_id):
    return importlib.import_module('dst.checks.' + check_id.lower())


def boot():
    """Import the code under test behind the seams (must happen before forking)."""
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings('ignore')
    np.seterr(all='ignore')
    from dst import world
    world.boot()


@contextlib.contextmanager
def patience(seconds, exc):
    """Raise `exc` if the block takes more processor time than this (a loop that draws nothing)."""
    def on_alarm(signum, frame):
        raise exc
    old = signal.signal(signal.SIGVTALRM, on_alarm)
    left = signal.setitimer(signal.ITIMER_VIRTUAL, seconds)[0]
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, max(left, 1))
        signal.signal(signal.SIGVTALRM, old)


class Pool:
    def __init__(self, n):
        self.n = n
        self.pool = mp.get_context('fork').Pool(n) if n > 1 else None

    def map(self, check_id, jobs, deadline=None):
        """Run jobs, yield results as they come; unfinished ones are dropped at the deadline."""
        args = [(check_id, j) for j in jobs]
        if self.pool is None:
            for a in args:
                if deadline and time.time() > deadline:
                    return
                yield run_job(a)
            return
        it = self.pool.imap_unordered(run_job, args, 1)
        for _ in args:
            try:
                yield it.next(None if not deadline else max(1, deadline - time.time()))
            except mp.TimeoutError:
                return

    def close(self):
        if self.pool is not None:
            self.pool.terminate()


def group_jobs(jobs):
    g = collections.OrderedDict()
    for j in jobs:
        if 'group' in j:
            g.setdefault(j['group'], []).append(j)
    for j in jobs:          # defects common to several groups show sooner in their union
        if 'pool' in j:
            g.setdefault(j['pool'], []).append(j)
    return g


def stage2_jobs(jobs, mult=STAGE2):
    out = []
    for k in range(mult):
        for j in jobs:
            j2 = dict(j)
            j2['seed'] = derive('stage2', j['seed'], k)
            j2['stage'] = 2
            out.append(j2)
    return out


def stage2_mult(z1):
    """Size of the second sample, from the first one alone: a gross difference needs no large one."""
    m = max(abs(z) for z in z1.values())
    return 1 if m > 9 else 2 if m > 6.5 else STAGE2


def judge_group(pool, check_id, jobs, z1, deadline):
    """Second, independent and larger sample for the suspicious functions of a group."""
    accs, structural = {}, None
    again = stage2_jobs(jobs, stage2_mult(z1))
    for r in pool.map(check_id, again, deadline):
        if r['status'] != 'ok':
            structural = structural or r
        merge_accs(accs, r['accs'])
    z2 = zscores(accs)
    bad = {n: (z, z2[n]) for n, z in z1.items()
           if n in z2 and abs(z2[n]) > Z2 and z * z2[n] > 0}
    return bad, accs, structural, again


def fmt_bad(bad, accs):
    top = sorted(bad.items(), key=lambda kv: -abs(kv[1][1]))[:4]
    return '; '.join('%s: mean %.4g over n=%d, z=%.1f (first sample z=%.1f)' % (
        n, accs[n][1] / accs[n][0], accs[n][0], z[1], z[0]) for n, z in top)


# ----------------------------------------------------------------------------- minimising

def minimise(check, check_id, res, budget):
    """Greedy shrinking of a failing history job; keeps the violation class."""
    t_end = time.time() + budget
    job, kind, steps = res['job'], res['kind'], 0
    best = res
    if not hasattr(check, 'shrink'):
        return best, 0
    improved = True
    while improved and time.time() < t_end:
        improved = False
        for cand in check.shrink(job):
            if time.time() > t_end:
                break
            r = run_job((check_id, cand))
            steps += 1
            if r['status'] == 'violation' and r['kind'] == kind:
                job, best, improved = cand, r, True
                break
    return best, steps


def ixs(job):
    """Indices of the runs of a job; a minimised job keeps one."""
    return range(job['n']) if job.get('only') is None else [job['only']]


def only_each(job, most=400):
    if job.get('only') is None:
        for i in range(min(job['n'], most)):
            yield dict(job, only=i)


def drop_each(seq, lo=0):
    """Candidate sub-sequences: halves first, then single removals."""
    n = len(seq)
    if n <= lo:
        return
    if n > 3:
        for a, b in ((0, n // 2), (n // 2, n), (0, n // 4), (n - n // 4, n)):
            c = seq[:a] + seq[b:]
            if lo <= len(c) < n:
                yield c
    for i in range(n):
        yield seq[:i] + seq[i + 1:]


# ----------------------------------------------------------------------------- known findings

def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def match_finding(findings, check_id, res):
    for f in findings:
        if f.get('status') == 'known' and f['property'] == check_id and f['kind'] == res['kind'] \
                and f.get('site', '') in res['msg'] \
                and all(res['job'].get(k) == v for k, v in f.get('job', {}).items()):
            return f
    return None


# ----------------------------------------------------------------------------- main entry

def check_main(check_id, tier, seed, nproc=None, only=None):
    t0 = time.time()
    boot()
    check = load(check_id)
    nproc = nproc or int(os.environ.get('DST_PROCS', '0')) or (os.cpu_count() or 1)
    cap = float(os.environ.get('DST_CAP', '600' if tier == 'quick' else '6000'))
    deadline = t0 + cap
    pool = Pool(nproc)
    jobs = check.plan(tier, seed)
    for i, j in enumerate(jobs):
        j['ix'] = i
    results = []
    for r in pool.map(check_id, jobs, deadline):
        results.append(r)
        if r['status'] == 'violation' and not match_finding(known_findings(), check_id, r) \
                and sum(x['status'] == 'violation' for x in results) >= 12:
            break
    results.sort(key=lambda r: r['job']['ix'])
    truncated = len(results) < len(jobs)

    errors = [r for r in results if r['status'] == 'error']
    slow = [r for r in results if r['status'] == 'violation' and r['kind'] == 'no-progress']
    if slow and len(slow) <= check.INFO.get('slow_ok', 0) * len(jobs):
        for r in slow:      # chains can wander to parameters where a step is honestly expensive
            r.update(status='ok')
            r['counts']['probe:runs cut short as too costly'] = 1
    violations = [r for r in results if r['status'] == 'violation']
    findings = known_findings()
    hits, fresh = collections.OrderedDict(), []
    for r in violations:
        f = match_finding(findings, check_id, r)
        if f is None:
            fresh.append(r)
        else:
            hits.setdefault(f['what'], 0)
            hits[f['what']] += 1

    # law groups
    law = {'groups': 0, 'functions': 0, 'max_abs_z': 0.0, 'stage2': 0}
    bad_groups = []
    groups = group_jobs(jobs)
    accs_by = {g: {} for g in groups}
    for r in results:
        for g in (r['job'].get('group'), r['job'].get('pool')):
            if g in accs_by:
                merge_accs(accs_by[g], r['accs'])
    ranked = []
    for g, accs in accs_by.items():
        z = zscores(accs)
        law['groups'] += bool(z)
        law['functions'] += len(z)
        if z:
            mz = max(abs(v) for v in z.values())
            law['max_abs_z'] = max(law['max_abs_z'], round(mz, 2))
            sus = {n: v for n, v in z.items() if abs(v) > Z1}
            if sus:
                ranked.append((-mz, g, sus))
    if not fresh:
        for _, g, sus in sorted(ranked):
            law['stage2'] += 1
            bad, accs2, structural, again = judge_group(pool, check_id, groups[g], sus, deadline)
            if structural is not None:
                if structural['status'] == 'error':
                    errors.append(structural)
                elif not match_finding(findings, check_id, structural):
                    fresh.append(structural)
            if bad:
                bad_groups.append((g, bad, accs2, again))
                break

    replay = None
    report = None
    min_steps = 0
    if fresh:
        fresh.sort(key=lambda r: (r['kind'] == 'no-progress', r['job']['ix'] if 'ix' in r['job'] else 0))
        first = fresh[0]
        best, min_steps = minimise(check, check_id, first, 25 if first['kind'] != 'no-progress' else 0)
        replay = write_replay(check_id, seed, tier, 'history', [best['job']], best['kind'], best['msg'],
                              {'original_job': first['job'], 'minimise_steps': min_steps,
                               'digest': best['digest'], 'tail': best['tail'], 'tb': best.get('tb')})
        report = best['msg']
    elif bad_groups:
        g, bad, accs2, again = bad_groups[0]
        js, bad, accs2, min_steps = minimise_law(pool, check, check_id, groups[g], (again, bad, accs2),
                                                 min(deadline, time.time() + 60))
        report = 'law differs in %s: %s' % (g, fmt_bad(bad, accs2))
        replay = write_replay(check_id, seed, tier, 'law', js, 'law', report,
                              {'group': g, 'functions': sorted(bad), 'minimise_steps': min_steps})
    pool.close()

    wall = time.time() - t0
    counts = collections.Counter()
    states = set()
    for r in results:
        counts.update(r['counts'])
        states |= r['states']
    evaluations = int(counts.get('runs', 0) or len(results))
    info = getattr(check, 'INFO', {})
    n_viol = len(fresh) + len(bad_groups)
    cov = {
        'evaluations': evaluations,
        'distinct_nontrivial': len(states),
        'rule': info.get('rule', ''),
        'samples': [results[i]['job'] for i in sorted({0, len(results) // 2, len(results) - 1})] if results else [],
        'jobs': len(results), 'jobs_planned': len(jobs), 'truncated': truncated,
        'runs_per_hour': int(evaluations * 3600 / max(wall, 1e-3)),
        'seeds_per_hour': int(len(results) * 3600 / max(wall, 1e-3)),
        'simulated_steps': int(counts.get('steps', 0)),
        'simulated_time': float(counts.get('sim_time', 0)),
        'events_logged': int(sum(r['events'] for r in results)),
        'faults_injected': {k[6:]: v for k, v in sorted(counts.items()) if k.startswith('fault:')},
        'probes': {k[6:]: v for k, v in sorted(counts.items()) if k.startswith('probe:')},
        'interleavings_or_states': info.get('states', 'distinct digests recorded with rec.state'),
        'real_code': info.get('real', ''), 'stubs': info.get('stubs', ''),
        'law': law, 'known_findings_seen': dict(hits),
        'event_log_digest': digest([r['digest'] for r in results]),
        'processes': nproc,
    }
    ev = {'property': check_id, 'tier': tier, 'seed': seed, 'level': info.get('level', 'exploration'),
          'coverage': cov, 'assumptions': info.get('assumptions', []), 'wall_s': round(wall, 2),
          'violations': n_viol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', check_id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    for what in hits:
        print('KNOWN-FINDING: property=%s %s' % (check_id, what))
    print('%s tier=%s seed=%d jobs=%d/%d runs=%d steps=%d states=%d law=%s wall=%.1fs digest=%s' % (
        check_id, tier, seed, len(results), len(jobs), evaluations, counts.get('steps', 0), len(states), law,
        wall, cov['event_log_digest']))
    for k in sorted(cov['faults_injected']):
        print('  fault %-32s %d' % (k, cov['faults_injected'][k]))
    for k in sorted(cov['probes']):
        print('  probe %-32s %d' % (k, cov['probes'][k]))
    if replay:
        print(report)
        print('VIOLATION property=%s replay=%s' % (check_id, replay))
        return 1
    if errors:
        print('HARNESS-ERROR in %d job(s); first: %s\n%s' % (len(errors), json.dumps(errors[0]['job'])[:400],
                                                            errors[0]['msg']))
        return 2
    if not results:
        print('HARNESS-ERROR: nothing ran')
        return 2
    return 0


def minimise_law(pool, check, check_id, jobs, best, t_end):
    """Try simpler cells of the same law group; keep those whose law still differs."""
    steps = 0
    if hasattr(check, 'shrink_law'):
        improved = True
        while improved and time.time() < t_end:
            improved = False
            for cand in check.shrink_law(jobs):
                if time.time() > t_end:
                    break
                steps += 1
                a = {}
                ok = True
                for r in pool.map(check_id, cand, t_end):
                    ok &= r['status'] == 'ok'
                    merge_accs(a, r['accs'])
                if not ok:
                    continue
                sus = {n: v for n, v in zscores(a).items() if abs(v) > Z1}
                if not sus:
                    continue
                b, a2, structural, again = judge_group(pool, check_id, cand, sus, t_end)
                if b and structural is None:
                    jobs, best, improved = cand, (again, b, a2), True
                    break
    return best[0], best[1], best[2], steps


def write_replay(check_id, seed, tier, mode, jobs, kind, msg, extra):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s.json' % (check_id, seed, digest([json.dumps(jobs, default=str), kind])[:10]))
    with open(path, 'w') as f:
        json.dump({'property': check_id, 'verif_seed': seed, 'tier': tier, 'mode': mode, 'kind': kind,
                   'message': msg, 'jobs': jobs, 'extra': extra}, f, indent=1, default=str)
    return path


def replay_main(path, nproc=None):
    with open(path) as f:
        rp = json.load(f)
    boot()
    pool = Pool(nproc or (os.cpu_count() or 1) if rp['mode'] == 'law' else 1)
    try:
        if rp['mode'] == 'history':
            r = run_job((rp['property'], rp['jobs'][0]))
            print(r['msg'])
            for t in r['tail']:
                print('  ', t)
            ok = r['status'] == 'violation' and r['kind'] == rp['kind']
            if ok and rp['extra'].get('digest') and r['digest'] != rp['extra']['digest']:
                print('note: event log differs from the recorded one (code changed since?)')
        else:
            accs = {}
            for r in pool.map(rp['property'], rp['jobs']):
                merge_accs(accs, r['accs'])
            z = zscores(accs)
            bad = {n: (0, z[n]) for n in rp['extra']['functions'] if abs(z.get(n, 0)) > Z2}
            print(fmt_bad(bad, accs) if bad else 'law agrees')
            ok = bool(bad)
    finally:
        pool.close()
    if ok:
        print('VIOLATION property=%s replay=%s' % (rp['property'], path))
        return 1
    print('not reproduced')
    return 0
