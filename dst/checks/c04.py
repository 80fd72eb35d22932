"""C04: query histories never bias the law of a lazily revealed path."""
import numpy as np
from scipy.special import ndtr

from dst import models, world
from dst.core import derive, rng

INFO = dict(
    level='exploration',
    rule='a run draws one unconditioned path, applies a random query history (batched, repeated, out of order, '
         'between, on forked branches, after failed queries) and compares the values at all queried times with the '
         'Brownian bridge, and the recorded extremum, layer and far-level record with their closed-form laws; '
         'states = (mode, orientation, layer, reach record, number of points)',
    real='ctbayes.ea3lib (skeleton, seed), ctbayes.sdelib',
    stubs='none; the generator is the simulated one',
    assumptions=['paths with imposed bounds have a stay probability of .01 or more',
                 'query times do not depend on revealed values',
                 'sampled evidence: two-stage z tests, about 1e-7 false alarms per test function'])

HIST = ['one by one forward', 'one by one backward', 'random order', 'batches', 'middle out', 'again and again',
        'forked', 'failed queries']


def plan(tier, seed):
    jobs = []
    reps, n = (24, 60) if tier == 'quick' else (120, 200)
    for h in HIST:
        for mode in ('skel', 'seed'):
            for k in range(reps):
                s = derive('C04', seed, h, mode, k)
                r = rng(s)
                jobs.append({'group': '%s %s' % (mode, h), 'hist': h, 'mode': mode, 'seed': s, 'n': n,
                             'm': int(r.choice([3, 6, 12])), 'same': bool(k % 2), 'steep': float(r.choice([.5, 1., 2.]))})
    for k in range(reps * 2):       # fine reveal: extremes of the revealed path
        jobs.append({'group': 'fine', 'hist': HIST[k % 4], 'mode': 'skel', 'n': n // 3, 'm': 40,
                     'same': bool(k % 2), 'steep': 1.0, 'seed': derive('C04f', seed, k)})
    for k in range(reps * 2):       # old times only, then a fine reveal
        jobs.append({'group': 'fine after old times', 'hist': 'old first', 'mode': ['skel', 'seed'][k % 2], 'n': n // 2,
                     'm': 12, 'same': bool(k % 3), 'steep': 1.0, 'seed': derive('C04o', seed, k)})
    for w in ('lower', 'upper', 'unlike', 'alike'):
        for k in range(reps):       # paths drawn within bounds
            jobs.append({'group': 'bounds ' + w, 'hist': HIST[k % 5], 'mode': 'skel', 'n': n, 'm': int(1 + k % 3),
                         'bounds': w, 'same': bool(k % 2), 'steep': [.5, 1., 2.][k % 3], 'seed': derive('C04b', seed, w, k)})
    rng('C04order', seed).shuffle(jobs)
    return jobs


def stay(a, b, fin_t, x, y):
    """Probability that a Brownian bridge from x to y stays within (a, b)."""
    if not (a < min(x, y) and max(x, y) < b):
        return 0.0
    w, s = b - a, 0.0
    for k in range(-60, 61):
        u = np.exp(-2 * k * w * (k * w + y - x) / fin_t)
        v = np.exp(-2 * (k * w + a - x) * (k * w + a - y) / fin_t)
        s += (u if np.isfinite(u) else 0) - (v if np.isfinite(v) else 0)
    return min(max(s, 0.0), 1.0)


def edge(i, fin_t, x, y):
    """Lower edge of layer i: the path's minimum falls below it with probability 1 / (i^2 + 1)."""
    if i == 0:
        return min(x, y)
    return (x + y - np.sqrt((y - x) ** 2 + 2 * fin_t * np.log(i * i + 1))) / 2


def schedule(hist, ts, r):
    """Batches of indices into ts."""
    m = len(ts)
    ix = np.arange(m)
    if hist == 'one by one forward':
        return [[i] for i in ix]
    if hist == 'one by one backward':
        return [[i] for i in ix[::-1]]
    if hist == 'middle out':
        return [[i] for i in sorted(ix, key=lambda i: abs(i - m // 2))]
    if hist == 'old first':
        k = int(r.integers(m))
        rest = [i for i in ix if i != k]
        return [[k], [k], rest]
    r.shuffle(ix)
    if hist in ('random order', 'failed queries'):
        return [[i] for i in ix]
    cuts = np.sort(r.integers(0, m + 1, int(r.integers(1, 4))))
    out = [sorted(b) for b in np.split(ix, cuts) if len(b)]
    if hist == 'again and again':
        res = []
        for b in out:
            res.append(b)
            res.append(sorted(set(map(int, r.integers(0, m, 2)))))
        return res
    return out


def run(job, rec):
    (bounded if 'bounds' in job else free)(job, rec)


def stays(lb, ub, dt, x, y):
    """Probability that a Brownian bridge from x to y stays within (lb, ub); y may be an array."""
    y = np.asarray(y, float)
    if np.isinf(ub):
        return np.maximum(-np.expm1(-2 * (x - lb) * (y - lb) / dt), 0)
    if np.isinf(lb):
        return np.maximum(-np.expm1(-2 * (ub - x) * (ub - y) / dt), 0)
    w, s = ub - lb, 0.0
    for k in range(-30, 31):
        with np.errstate(over='ignore'):
            s = s + np.exp(np.minimum(-2 * k * w * (k * w + y - x) / dt, 700)) - \
                np.exp(np.minimum(-2 * (k * w + lb - x) * (k * w + lb - y) / dt, 700))
    return np.clip(s, 0, 1)


def bounded(job, rec):
    """A path drawn within bounds is a Brownian bridge conditioned to stay within them."""
    from ctbayes.ea3lib import skeleton as K
    for i in range(job['n']):
        r = rng(job['seed'], i)
        fin_t = float(np.exp(r.uniform(-2, 1)))
        a = float(r.normal())
        b = a if job['same'] else float(a + r.normal() * np.sqrt(fin_t) * job['steep'])
        w = np.sqrt(fin_t) * np.exp(r.uniform(-1.5, .3, 2))
        if job['bounds'] == 'alike':
            w[1] = w[0]
        lb = min(a, b) - w[0] if job['bounds'] != 'upper' else -np.inf
        ub = max(a, b) + w[1] if job['bounds'] != 'lower' else np.inf
        if stays(lb, ub, fin_t, a, b) < .01:
            continue
        ome = world.gen(derive(job['seed'], i, 'ome'), world.Control(rec))
        p = path = K.sample_raw_skeleton(fin_t, a, b, (lb, ub), ome)
        ts = np.sort(r.uniform(.03, .97, job['m'])) * fin_t
        if np.min(np.diff(ts), initial=1) < 1e-3 * fin_t:
            continue
        vals = np.full(job['m'], np.nan)
        for bt in schedule(job['hist'], ts, r):
            p, vals[bt] = K.interpolate_skeleton(p, ts[bt], ome)
        rec.count('runs')
        rec.count('sim_time', fin_t)
        rec.state(job['bounds'], bool(path.tight_x < path.loose_x), None if p[5] is None else [bool(h) for h in p[5]][:16])
        rec.log(i, float(np.sum(vals)))
        u, s0, x0 = [], 0.0, a
        for s, x in zip(ts, vals):
            f = (s - s0) / (fin_t - s0)
            mean, sd = x0 + f * (b - x0), np.sqrt((s - s0) * (fin_t - s) / (fin_t - s0))
            lo, hi = max(lb, mean - 9 * sd), min(ub, mean + 9 * sd)
            q, wt = np.polynomial.legendre.leggauss(60)

            def mass(c, d):
                y = (c + d) / 2 + (d - c) / 2 * q
                return (d - c) / 2 * np.sum(wt * np.exp(-((y - mean) / sd) ** 2 / 2) * stays(lb, ub, s - s0, x0, y)
                                            * stays(lb, ub, fin_t - s, b, y))
            below, above = mass(lo, min(max(x, lo), hi)), mass(min(max(x, lo), hi), hi)
            u.append(below / (below + above))
            s0, x0 = s, x
        rec.acc_pit('bounded values', u, 8)
        rec.acc('bounded first', u[0] - .5, 1 / 12)
        rec.acc('bounded last', u[-1] - .5, 1 / 12)
        if job['m'] > 1:
            rec.acc('bounded product', (u[0] - .5) * (u[1] - .5), 1 / 144)


def free(job, rec):
    from ctbayes.ea3lib import seed as S, skeleton as K
    M = models.module('ito')
    for i in range(job['n']):
        r = rng(job['seed'], i)
        fin_t = float(np.exp(r.uniform(-2, 1)))
        a = float(r.normal())
        b = a if job['same'] else float(a + r.normal() * np.sqrt(fin_t) * job['steep'])
        ctl = world.Control(rec)
        ome = world.gen(derive(job['seed'], i, 'ome'), ctl)
        if job['mode'] == 'skel':
            path = K.sample_raw_skeleton(fin_t, a, b, (-np.inf, np.inf), ome)
            ask = lambda p, t: K.interpolate_skeleton(p, t, ome)          # noqa: E731
        else:
            thi = np.exp(r.normal(size=2) * .5)
            ops = M.gen_normops(thi, np.array([0., fin_t]), np.array([a, b]) * thi[1])[0]
            path = S.sample_raw_seed((-np.inf, np.inf), *ops, ome)
            ask = lambda p, t: S.interpolate_seed(p, t, *ops, ome)        # noqa: E731
        T, x, y, tight, loose, hit, hit_i = unpack(job, path, fin_t, a, b)
        start(rec, T, x, y, path, tight, loose, hit)
        ts = np.sort(r.uniform(.01, .99, job['m'])) * fin_t
        if np.min(np.diff(ts), initial=1) < 1e-6 * fin_t:
            continue
        vals = np.full(job['m'], np.nan)
        p = path
        for bt in schedule(job['hist'], ts, r):
            if job['hist'] == 'forked' and r.random() < .5:
                other = np.sort(r.uniform(.01, .99, 2)) * fin_t      # on a branch that is thrown away
                ask(p, other)
                rec.count('probe:abandoned branches')
            if job['hist'] == 'failed queries' and r.random() < .5:
                ctl.crash_at = ctl.draws + int(r.integers(1, 10))
                try:
                    ask(p, ts[bt] + 1e-4 * fin_t)
                except world.SimCrash:
                    pass
                ctl.crash_at = None
            if job['hist'] == 'middle out' and r.random() < .3:      # extra times never looked at
                p, _ = ask(p, np.array([float(r.uniform(.01, .99)) * fin_t]))
            p, v = ask(p, ts[bt])
            vals[bt] = v
        rec.count('runs')
        rec.count('sim_time', fin_t)
        rec.state(job['mode'], bool(tight < loose), None if p[5] is None else [bool(h) for h in p[5]][:16], job['m'])
        rec.log(i, float(np.sum(vals)))
        # whiten against the Brownian bridge, left to right
        z = whiten(ts, vals, fin_t, a, b)
        u = ndtr(z)
        rec.acc_pit('values', u, 8)
        rec.acc('product', (z[:-1] * z[1:]))
        rec.acc('square product', (z[:-1] ** 2 - 1) * (z[1:] ** 2 - 1))
        rec.acc('sum', np.tanh(np.sum(z) / np.sqrt(len(z))))
        rec.acc('energy', [ndtr((np.sum(z ** 2) - len(z)) / np.sqrt(2 * len(z))) - ENERGY[len(z)]])
        rec.acc('first', u[0] - .5, 1 / 12)
        rec.acc('last', u[-1] - .5, 1 / 12)
        # the same record revealed in one go on another branch: same conditional law
        ref = np.asarray(ask(path, ts)[1], float)
        up = 1 if tight < loose else -1
        far = hit if job['mode'] == 'skel' else None
        h0 = path[5]
        cls = 'no record' if h0 is None else ('reached' if any(h0) else 'not reached')

        def feats(q):
            w = (q - (a + (b - a) * ts / fin_t)) / np.sqrt(fin_t) * up
            yield 'far', np.tanh(2 * np.max(w))
            yield 'near', np.tanh(2 * np.min(w))
            yield 'level', np.tanh(np.mean(w))
            yield 'swing', np.tanh(np.ptp(w))
            if far is not None:
                yield 'beyond', float(np.any((q - far) * up > 0))
        for (nm, f1), (_, f0) in zip(feats(vals), feats(ref)):
            rec.acc('branch %s, %s' % (nm, cls), f1 - f0)
        if job['m'] >= 12:      # pathwise functionals against a direct draw
            w = direct(ts, fin_t, a, b, r)
            sd = np.sqrt(fin_t)
            for nm, f in (('max', np.max), ('min', np.min), ('range', np.ptp),
                          ('time above', lambda q: np.mean(q > (a + b) / 2)),
                          ('swing', lambda q: np.max(np.abs(np.diff(q))))):
                rec.acc('functional ' + nm, np.tanh((f(vals) - (a + b) / 2) / sd) - np.tanh((f(w) - (a + b) / 2) / sd))


def _energy():
    g = np.random.Generator(np.random.PCG64(7))
    out = {}
    for m in (3, 6, 12, 40):
        out[m] = float(np.mean(ndtr((g.chisquare(m, 4000000) - m) / np.sqrt(2 * m))))
    return out


ENERGY = _energy()


def unpack(job, path, fin_t, a, b):
    """The path's record in coordinates where it is a bridge from x to y over T."""
    if job['mode'] == 'skel':
        return (fin_t, a, b) + tuple(path[2:6])
    return (1.0, 0.0, 0.0) + tuple(path[2:6])


def start(rec, T, x, y, path, tight, loose, hit):
    """Law of the recorded layer, extremum and its time."""
    s = x + y
    low = tight < loose
    # mirror upward records: reversal and reflection keep end values and law
    m, hi, h = (tight, loose, hit) if low else (s - tight, s - loose, s - hit)
    i, e = 0, []
    while True:
        e.append(edge(i, T, x, y))
        if i and abs((s - e[i]) - hi) < 1e-7 * max(1, abs(hi)):
            break
        i += 1
        if i > 2000:
            rec.acc('layer recognised', [1.0])
            return
    p = [stay(e_, s - e_, T, x, y) for e_ in e] + [stay(edge(j, T, x, y), s - edge(j, T, x, y), T, x, y)
                                                  for j in range(i + 1, 4)]
    for j in (1, 2, 3):
        rec.acc('layer<=%d' % j, float(i <= j) - p[j], p[j] * (1 - p[j]))
    rec.acc('orientation', float(low) - .5, .25)
    le, ou, inn = e[i], s - e[i - 1], s - e[i]

    def G(q):
        if i == 1:      # the inner box is the span of the ends: its far side is always crossed
            return (stay(le, inn, T, x, y) - stay(q, inn, T, x, y)) / 2
        c = stay(le, ou, T, x, y) - stay(q, ou, T, x, y)
        d = stay(le, inn, T, x, y) - stay(q, inn, T, x, y)
        return c + (d - c) / 2
    tot = G(e[i - 1])
    if tot > 1e-9:
        rec.acc_pit('extremum', G(m) / tot, 6)
    t = path[0]
    k = int(np.argmin(np.abs(np.asarray(path[1]) - tight)))
    if x == y:
        c = float(t[k] / t[-1]) - .5            # reversal leaves the law unchanged
        rec.acc('extremum time', c)
        rec.acc('extremum time cubed', c ** 3)
        rec.acc('extremum time.value', c * np.sign(m - np.mean([e[i], e[i - 1]])))


def whiten(ts, v, fin_t, a, b):
    s0, x0, z = 0.0, a, []
    for s, x in zip(ts, v):
        f = (s - s0) / (fin_t - s0)
        mean = x0 + f * (b - x0)
        var = (s - s0) * (fin_t - s) / (fin_t - s0)
        z.append((x - mean) / np.sqrt(var))
        s0, x0 = s, x
    return np.array(z)


def direct(ts, fin_t, a, b, r):
    out, s0, x0 = [], 0.0, a
    for s in ts:
        f = (s - s0) / (fin_t - s0)
        x0 = x0 + f * (b - x0) + np.sqrt((s - s0) * (fin_t - s) / (fin_t - s0)) * r.normal()
        s0 = s
        out.append(x0)
    return np.array(out)


def shrink_law(jobs):
    for m in (3,):
        yield [dict(j, m=m) for j in jobs]
    for h in ('one by one forward', 'batches'):
        if jobs[0]['hist'] != h:
            yield [dict(j, hist=h) for j in jobs]
