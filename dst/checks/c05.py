"""C05: batched Poisson streams are exact for every batch size, stopping point and interleaving."""
import numpy as np
from scipy.stats import poisson

from dst import world
from dst.core import Violation, derive, drop_each, rng

INFO = dict(
    level='exploration',
    rule='a run lets a consumer draw batches from several streams sharing one generator, in a seeded order, and stop '
         'each by a policy (drained, fixed number of batches, first point past a line, marked point, crash inside '
         'the producer); every received point is checked against the box and order, and turned into uniforms of the '
         'sequential law; states = (batch size, policy, dimension, batches received, points received)',
    real='ctbayes.mjplib.skeleton sample_batch_ppp, sample_ppp',
    stubs='none; the generator is the simulated one',
    assumptions=['a consumer decides whether to ask for a batch from earlier batches only'])

POLICIES = ['drain', 'after k', 'past line', 'mark', 'coin']


def plan(tier, seed):
    jobs = []
    reps, n = (36, 120) if tier == 'quick' else (120, 400)
    for bs in (1, 2, 3, 5, 50):
        for pol in POLICIES:
            for k in range(reps):
                s = derive('C05', seed, bs, pol, k)
                jobs.append({'group': 'batch %d %s' % (bs, pol), 'batch': bs, 'policy': pol, 'seed': s, 'n': n,
                             'dim': 1 + k % 3, 'streams': int(rng(s).choice([1, 2, 3]))})
    for d in (1, 2, 3):
        for k in range(reps):
            jobs.append({'group': 'unbatched', 'batch': 0, 'policy': 'drain', 'dim': d, 'n': n, 'streams': 1,
                         'seed': derive('C05u', seed, d, k)})
    for k in range(reps * 12):
        s = derive('C05x', seed, k)
        r = rng(s)
        jobs.append({'batch': int(r.integers(1, 9)), 'policy': str(r.choice(POLICIES)), 'dim': int(r.integers(1, 4)),
                     'n': 12, 'streams': int(r.integers(1, 4)), 'seed': s, 'exact': True,
                     'extreme': float(r.choice([0, .05, .3])), 'crash': int(r.choice([0, 0, 3, 7, 12])),
                     'default_batch': bool(r.random() < .2)})
    return jobs


def run(job, rec):
    from ctbayes.mjplib import skeleton as J
    for i in range(job['n']):
        r = rng(job['seed'], i)
        ctl = world.Control(rec, max_draws=20000)
        if job.get('extreme'):
            ctl.extreme = (rng(job['seed'], i, 'x'), job['extreme'])
        if job.get('crash'):
            ctl.crash_at = job['crash']
        ome = world.gen(derive(job['seed'], i, 'ome'), ctl)
        specs, its = [], []
        for k in range(job['streams']):
            box = tuple(float(x) for x in np.exp(r.uniform(-1, 1, job['dim'])))
            mean = float(r.choice([.3, 1.5, 4., 9.]))
            lam = mean / float(np.prod(box))
            specs.append((lam, box))
            if job['batch'] == 0:
                its.append(iter([J.sample_ppp(lam, box, ome)]))
            elif job.get('default_batch'):
                its.append(J.sample_batch_ppp(lam, box, ome=ome))
            else:
                its.append(J.sample_batch_ppp(lam, box, job['batch'], ome))
        got = [[] for _ in its]
        open_ = list(range(len(its)))
        ended = [False] * len(its)
        asked = [0] * len(its)
        limit = [int(r.integers(1, 4)) for _ in its]
        while open_:
            k = open_[int(r.integers(len(open_)))]
            if len(open_) > 1:
                rec.count('fault:streams interleaved')
            try:
                b = next(its[k])
            except StopIteration:
                ended[k] = True
                open_.remove(k)
                continue
            except world.SimCrash:
                ctl.crash_at = None
                open_.remove(k)
                continue
            check_batch(np.asarray(b, float), specs[k][1], got[k], job['dim'], 'stream %d batch %d' % (k, asked[k]))
            got[k] += [tuple(p) for p in np.asarray(b, float)]
            asked[k] += 1
            if len(got[k]) > 500:
                raise Violation('stream-does-not-end', '%d points of a process with mean 9 at most' % len(got[k]))
            if stop(job, r, specs[k], got[k], asked[k], limit[k]):
                its[k].close() if hasattr(its[k], 'close') else None
                rec.count('fault:consumer stopped early')
                open_.remove(k)
                if job['batch'] == 0 or len(b) < job['batch']:      # an unfilled batch says there is no more
                    ended[k] = True
        rec.count('runs', len(its))
        for k, (lam, box) in enumerate(specs):
            rec.state(job['batch'], job['policy'], job['dim'], asked[k], len(got[k]), ended[k])
            rec.count('sim_time', got[k][-1][0] if got[k] else box[0])
            rec.log(i, k, asked[k], len(got[k]), got[k][-1] if got[k] else None)
            if not job.get('exact'):
                law(rec, lam, box, got[k], ended[k], job)


def check_batch(b, box, before, dim, where):
    if b.ndim != 2 or b.shape[1] != dim:
        raise Violation('batch-shape', '%s: shape %s for %d coordinates' % (where, b.shape, dim))
    if not np.all(np.isfinite(b)):
        raise Violation('not-finite', where)
    if np.any(b < 0) or np.any(b > np.array(box) * (1 + 1e-12)):
        raise Violation('point-outside-box', '%s: %s in box %s' % (where, b[np.any((b < 0) | (b > box), 1)][:2], box))
    first = np.append(before[-1][0] if before else 0, b[:, 0])
    if np.any(np.diff(first) < 0):
        raise Violation('order-broken', '%s: first coordinate decreases: %s' % (where, first))


def stop(job, r, spec, got, asked, limit):
    if job['policy'] == 'after k':
        return asked >= limit
    if job['policy'] == 'past line':
        return got[-1][0] > spec[1][0] * .4
    if job['policy'] == 'mark':
        return any(p[-1] < .3 * spec[1][-1] for p in got) if job['dim'] > 1 else len(got) % 3 == 1
    if job['policy'] == 'coin':
        return r.random() < .4
    return False


def law(rec, lam, box, got, ended, job):
    rate = lam * float(np.prod(box[1:]))
    s = 0.0
    gaps, rest = [], []
    for p in got:
        left = box[0] - s
        pr = -np.expm1(-rate * left)
        rec.acc('another point', 1 - pr, pr * (1 - pr))
        gaps.append(-np.expm1(-rate * (p[0] - s)) / pr if pr > 0 else .5)
        rest.append([c / w for c, w in zip(p[1:], box[1:])])
        s = p[0]
    if ended:
        pr = -np.expm1(-rate * (box[0] - s))
        rec.acc('another point', -pr, pr * (1 - pr))
    if gaps:
        rec.acc_pit('gap', gaps, 8)
        rec.acc('first gap', gaps[0] - .5)
        for j in (1, 2, 3):
            if len(gaps) > j:
                rec.acc('gap %d' % j, gaps[j] - .5)
        if len(gaps) > 1:
            g = np.array(gaps) - .5
            rec.acc('gap product', g[1:] * g[:-1])
    for j in range(len(box) - 1):
        u = [q[j] for q in rest]
        rec.acc_pit('mark%d' % j, u, 6)
        if u:
            rec.acc('mark.gap%d' % j, (np.array(u) - .5) * (np.array(gaps) - .5))
            if len(u) > 1:
                rec.acc('mark product%d' % j, (np.array(u)[1:] - .5) * (np.array(u)[:-1] - .5))
    if job['policy'] == 'drain':
        m = lam * float(np.prod(box))
        rec.acc('count', [(len(got) - m) / np.sqrt(m)], 1)
        rec.acc('empty', (len(got) == 0) - np.exp(-m))
        rec.acc('count<=mean', (len(got) <= m) - poisson.cdf(m, m))


def shrink(job):
    for k in ('extreme', 'crash'):
        if job.get(k):
            yield dict(job, **{k: 0})
    if job['streams'] > 1:
        yield dict(job, streams=1)
    if job['n'] > 1:
        yield dict(job, n=max(1, job['n'] // 2))
    if job['dim'] > 1:
        yield dict(job, dim=1)


def shrink_law(jobs):
    if any(j['streams'] > 1 for j in jobs):
        yield [dict(j, streams=1) for j in jobs]
    for d in (1, 2):
        yield [dict(j, dim=d, streams=1) for j in jobs]
