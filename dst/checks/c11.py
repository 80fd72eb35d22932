"""C11: adaptive proposals stay in bounds, stay centred on the chain, and adapt ever less."""
import copy
import pickle

import numpy as np

from dst import models, world
from dst.core import Alarm, NoProgress, Violation, derive, digest, drop_each, rng

INFO = dict(
    level='exploration', slow_ok=.05,
    rule='a history is a seeded list of proposals, accepted, rejected and fractional moves, crashes inside a proposal '
         'and restarts from serialized copies, driven through one proposal sampler (or through the samplers of a real '
         'chain) and compared step by step with an independent reference; states = (sampler, bounds, adaptation '
         'number, direction, fault) classes',
    real='ctbayes.misc.adapt; in chain runs also ito.mcmc, switching.mcmc and everything below them; joblib dispatch',
    stubs='joblib process pool replaced by seeded virtual workers (chain runs)',
    assumptions=['states stay where the logarithm of the distance to the bound is representable',
                 'centring and shape of proposals are judged statistically in two stages, the rest exactly'])

BOUNDS = {'free': (-np.inf, np.inf), 'default': (np.inf, np.inf), 'positive': (0., np.inf), 'above': (1.5, np.inf),
          'below': (-np.inf, 2.), 'negative': (-np.inf, 0.), 'interval': (-1., 3.)}
PATTERNS = ['always', 'never', 'random', 'fractions', 'alternate', 'streaks', 'target']


def plan(tier, seed):
    n, reps = (900, 36) if tier == 'quick' else (20000, 400)
    jobs = []
    for i in range(n):
        r = rng('C11', seed, i)
        kind = str(r.choice(['rw', 'mvrw', 'mvrw', 'mjp']))
        m = int(r.choice([3, 12, 40, 200, 800]))
        jobs.append({'kind': kind, 'seed': derive('C11', seed, i), 'opt': float(r.choice([.1, .2, .234, .44])),
                     'decay': float(r.choice([.51, .66, 1.])), 'air': int(r.choice([0, 1, 1, 2])),
                     'dim': int(r.choice([1, 2, 2, 3])), 'pattern': str(r.choice(PATTERNS)),
                     'bounds': [str(r.choice(list(BOUNDS))) for _ in range(3)], 'steps': m,
                     'spread': float(r.choice([.05, .5, 2.])), 'faults': float(r.choice([0., .1, .4])),
                     'drop': []})
    for kind in ('ito', 'switching'):
        for i in range(reps):
            r = rng('C11c', seed, kind, i)
            jobs.append({'kind': kind, 'seed': derive('C11c', seed, kind, i), 'steps': int(r.choice([5, 20, 60])),
                         'model': str(r.choice(['ou', 'ou2', 'ou3'])), 'portkey': float(r.choice([.01, .01, .5])),
                         'precoin': bool(r.random() < .5), 'n_obs': int(r.choice([2, 3, 6])),
                         'regimes': int(r.choice([2, 3])), 'cores': int(r.choice([1, 1, 3])),
                         'opt': float(r.choice([.2, .4]))})
    for kind in ('rw', 'mvrw'):
        for i in range(reps):
            r = rng('C11l', seed, kind, i)
            jobs.append({'kind': 'law ' + kind, 'group': 'proposal ' + kind, 'seed': derive('C11l', seed, kind, i), 'n': 400,
                         'bounds': [str(r.choice(list(BOUNDS))) for _ in range(3)], 'dim': 2 + i % 2})
    rng('C11order', seed).shuffle(jobs)
    return jobs


def run(job, rec):
    if job['kind'].startswith('law'):
        law(job, rec)
    elif job['kind'] in ('ito', 'switching'):
        try:
            (ito if job['kind'] == 'ito' else switching)(job, rec)
        except NoProgress as e:
            if isinstance(e, Alarm):
                raise
            rec.count('probe:runs cut short as too costly')
    else:
        history(job, rec)


# independent transformation facts ------------------------------------------------------------

def half(lb, ub):
    """Signed distance coordinate: +1 log(x - lb), -1 log(ub - x), 0 unchanged."""
    lo, hi = np.isfinite(lb), np.isfinite(ub)
    return 1 if lo and not hi else -1 if hi and not lo else 0


def real(x, lb, ub):
    s = half(lb, ub)
    return np.log(x - lb) if s > 0 else np.log(ub - x) if s < 0 else x


def inside(x, lb, ub):
    s = half(lb, ub)
    return np.isfinite(x) and (x > lb if s > 0 else x < ub if s < 0 else True)


class Reference:
    """What the history so far implies for a sampler."""

    def __init__(self, s, bounds, opt, decay, kind):
        self.bounds, self.opt, self.decay, self.kind = bounds, opt, decay, kind
        self.probs, self.states, self.last = [], [], 0
        self.scales = list(s.log_prop_scale)
        self.due = list(s.adapt_periods)
        d = len(bounds) if kind == 'mvrw' else 0
        self.mean, self.mean2, self.cov, self.cov2 = np.zeros(d), np.zeros(d), np.eye(d), np.eye(d)
        self.prop_cov = np.eye(d)

    def check(self, s, x, prob, where):
        """After adapt(x, prob)."""
        self.probs.append(prob)
        n = len(self.probs)
        if digest(plain(s.state)) != digest(plain(x)):
            raise Violation('not-centred', '%s: sampler keeps %s, the chain is at %s' % (where, plain(s.state), plain(x)))
        scales, due = list(s.log_prop_scale), list(s.adapt_periods)
        if scales[:len(self.scales)] != self.scales or due[:len(self.due)] != self.due:
            raise Violation('history-rewritten', '%s: earlier scales or adaptation times changed' % where)
        if np.any(np.diff(due) < np.append(0, np.diff(due)[:-1])) or np.any(np.diff(due) <= 0) or due[-1] <= n:
            raise Violation('schedule', '%s: adaptation times %s after %d moves are not ever sparser' % (where, due[-5:], n))
        new = scales[len(self.scales):]
        is_due = n in due
        if bool(new) != is_due or len(new) > 1:
            raise Violation('schedule', '%s: %d scale changes after %d moves, scheduled %s' % (where, len(new), n, due[-5:]))
        k = len(scales) - 1
        if new:
            step = new[0] - self.scales[-1]
            # acceptance since the previous adaptation, with or without the move that triggered it
            w = [np.mean(self.probs[self.last:]), np.mean(self.probs[max(self.last - 1, 0):])]
            if self.last == 0:
                w.append(np.mean(self.probs + [self.opt]))
            if self.kind == 'mjp':
                w.append(self.probs[-1])
            dev = np.array(w) - self.opt
            if abs(step) > (k + 1) ** -self.decay * np.max(np.abs(dev)) + 1e-12:
                raise Violation('step-size', '%s: adaptation %d moved the scale by %g, acceptance off target by %s' % (
                    where, k, step, dev))
            if np.all(dev > 1e-9) and step <= 0 or np.all(dev < -1e-9) and step >= 0:
                raise Violation('direction', '%s: adaptation %d moved the scale by %g, acceptance off target by %s' % (
                    where, k, step, dev))
            self.last = n
        self.scales, self.due = scales, due
        if self.kind == 'mvrw':
            self.covariance(s, x, n, bool(new), where)
        return k, bool(new)

    def covariance(self, s, x, n, adapted, where):
        y = np.array([real(x_, *b) for x_, b in zip(x, self.bounds)])
        # recursive estimate around the mean before the move, or around the running means (Welford)
        dev = y - self.mean
        self.mean = self.mean + dev / (n + 1)
        self.cov2 = self.cov2 + (np.outer(dev, y - self.mean) - self.cov2) / (n + 1)
        self.cov = self.cov + (np.outer(dev, dev) - self.cov) / (n + 1)
        c, m = np.asarray(s.adapt_cov, float), np.asarray(s.adapt_mean, float)
        ok = lambda a, b: np.all(np.abs(a - b) <= 1e-8 * (1 + np.max(np.abs(b))))       # noqa: E731
        if not ok(m, self.mean):
            raise Violation('running-mean', '%s: %s, states average %s' % (where, m, self.mean))
        if not (ok(c, self.cov) or ok(c, self.cov2)):
            raise Violation('running-covariance', '%s: %s, recomputed %s' % (where, c.tolist(), self.cov.tolist()))
        p = np.asarray(s.prop_cov, float)
        if not ok(p, c if adapted else self.prop_cov):
            raise Violation('proposal-covariance', '%s: %s %s' % (
                where, p.tolist(), 'is not the running covariance' if adapted else 'changed between adaptations'))
        self.prop_cov = p.copy()
        for q in (c, p):
            if not np.all(np.isfinite(q)) or np.any(q != q.T) and np.max(np.abs(q - q.T)) > 1e-12 * np.max(np.abs(q)) \
                    or np.min(np.linalg.eigvalsh(q)) < -1e-9 * np.max(np.abs(q)):
                raise Violation('covariance-invalid', '%s: %s' % (where, q.tolist()))


def plain(x):
    if hasattr(x, 'xt'):
        return [np.asarray(x.t, float), np.asarray(x.xt), float(x.fin_t)]
    return np.asarray(x, float)


def check_proposal(prop, fwd, bwd, x, bounds, where, reach=0.):
    xs, ps = np.atleast_1d(x), np.atleast_1d(prop)
    want = 0.
    for p, x0, (lb, ub) in zip(ps, xs, bounds):
        # a distance too small to represent next to a bound away from zero rounds onto the bound
        low, y = (-30 if half(lb, ub) > 0 and lb or half(lb, ub) < 0 and ub else -700), real(x0, lb, ub)
        if half(lb, ub) and (p == lb or p == ub or np.isinf(p)) and not (y - 9 * reach > low and y + 9 * reach < 700):
            return
        if not inside(p, lb, ub):
            raise Violation('out-of-bounds', '%s: proposed %r, bounds (%g, %g)' % (where, p, lb, ub))
        if half(lb, ub):
            if abs(real(p, lb, ub)) > 600:      # next to the end of the number range
                return
            want += real(x0, lb, ub) - real(p, lb, ub)
    got = float(np.sum(fwd) - np.sum(bwd))
    # rounding of the proposal matters where it is close to a bound away from zero
    tol = 1e-6 + sum(1e-14 * abs(b) / abs(p - b) for p, bs in zip(ps, bounds) for b in bs if np.isfinite(b))
    if np.ndim(fwd) or np.ndim(bwd) or abs(got - want) > tol * (1 + abs(want)):
        raise Violation('density-ratio', '%s: forward minus backward log density %r, transformation says %r' % (where, got, want))


def outcome(job, r, k):
    p = job['pattern']
    return {'always': 1., 'never': 0., 'random': float(r.random() < .3), 'fractions': float(r.integers(0, 5) / 4),
            'alternate': float(k % 2), 'streaks': float((k // 7) % 2), 'target': job['opt']}[p]


def build(job, r):
    from ctbayes.misc import adapt
    kw = dict(opt_prob=job['opt'], adapt_decay=job['decay'], air=job['air'])
    if job['kind'] == 'mjp':
        from ctbayes.mjplib import skeleton as J
        lam = np.array([[-1., 1.], [2., -2.]]) * job['spread'] * 2
        y = J.sample_forwards(2., None, lam, world.gen(derive(job['seed'], 'y'), None))
        return adapt.MyopicMjpSampler(y, **kw), y, None, lam
    dim = 1 if job['kind'] == 'rw' else job['dim']
    bounds = [BOUNDS[b] for b in job['bounds'][:dim]]
    x = []
    for lb, ub in bounds:
        s, e = half(lb, ub), float(np.exp(r.uniform(-3, 3)))
        x.append(lb + e if s > 0 else ub - e if s < 0 else float(r.normal()) if not np.isfinite(lb) else .5)
    if job['kind'] == 'rw':
        return adapt.MyopicRwSampler(x[0], bounds[0], **kw), x[0], bounds, None
    b = (np.array([b[0] for b in bounds]), np.array([b[1] for b in bounds]))
    return adapt.MyopicMvRwSampler(np.array(x), b, **kw), np.array(x), bounds, None


def history(job, rec):
    r = rng(job['seed'])
    s, x, bounds, lam = build(job, r)
    kind = job['kind']
    ref = Reference(s, bounds, job['opt'], job['decay'], kind)
    ctl = world.Control(rec).install()
    ome = world.gen(derive(job['seed'], 'ome'), ctl)
    t = np.append(0, np.append(np.sort(rng(job['seed'], 't').uniform(0, 2, 6)), 2.))
    rec.count('runs')
    dropped = set(job.get('drop', ()))
    for k in range(job['steps']):
        rk = rng(job['seed'], 'step', k)
        if k in dropped:
            continue
        where = 'move %d' % (k + 1)
        rec.count('sim_time', 1.)
        fault = None
        if rk.random() < job['faults'] * min(1., 60 / job['steps']):
            fault = str(rk.choice(['pickle', 'copy', 'crash', 'extreme', 'stale']))
            before = digest(snapshot(s))
            if fault == 'crash':
                ctl.crash_at = ctl.draws + 1
                try:
                    propose(s, kind, lam, t, ome)
                except world.SimCrash:
                    rec.count('fault:crash inside a proposal')
                ctl.crash_at = None
            elif fault == 'pickle':
                s = pickle.loads(pickle.dumps(s))
                rec.count('fault:restart from a serialized copy')
            elif fault == 'copy':
                old, s = s, copy.deepcopy(s)
                adapt(old, kind, x, 1., rk)           # the abandoned copy must not matter
                rec.count('fault:restart from a copy, original kept in use')
            elif fault == 'stale':
                for _ in range(int(rk.integers(1, 4))):     # proposals never adapted on
                    propose(s, kind, lam, t, ome)
                rec.count('fault:proposal abandoned')
            if digest(snapshot(s)) != before:
                raise Violation('sampler-altered', '%s: a fault (%s) changed the sampler' % (where, fault))
        look = k < 20 or k % 50 == 0
        before = digest(snapshot(s)) if look else None
        out = propose(s, kind, lam, t, ome)
        if look and digest(snapshot(s)) != before:
            raise Violation('sampler-altered', '%s: proposing changed the sampler' % where)
        if kind == 'mjp':
            prop = out[0]
        else:
            prop, fwd, bwd = out
            reach = np.exp(s.log_prop_scale[-1]) * (np.sqrt(np.max(np.diag(s.prop_cov))) if kind == 'mvrw' else 1.)
            check_proposal(prop, fwd, bwd, x, bounds, where, max(reach, np.sqrt(reach)))
        p = outcome(job, rk, k)
        if kind == 'mjp':
            x = prop if p > rk.random() else x
        elif p > rk.random():
            x = bounded(prop, x, bounds)
            if kind == 'rw':
                x = float(np.asarray(x))
        elif job['spread'] > 1 and rk.random() < .2 and kind == 'mvrw':     # a far jump of the chain
            x = np.array([b[0] + 40 if half(*b) > 0 else b[1] - 1e-3 if half(*b) < 0 else 5. for b in bounds])
        adapt(s, kind, x, p, rk)
        n_adapt, adapted = ref.check(s, x, p, where)
        rec.count('steps')
        rec.count('probe:adaptations', int(adapted))
        rec.count('probe:moves accepted', int(p > 0))
        rec.state(kind, job['bounds'][:job['dim']] if bounds else '', min(n_adapt, 30), adapted, fault, p)
    rec.log(kind, digest(snapshot(s)))


def bounded(prop, x, bounds):
    """Follow an accepted proposal as long as it stays representable."""
    ok = all(abs(real(p, *b)) < (25 if half(*b) else 1e6) for p, b in zip(np.atleast_1d(prop), bounds))
    return prop if ok else x


def propose(s, kind, lam, t, ome):
    return s.propose(lam, t, ome) if kind == 'mjp' else s.propose(ome)


def adapt(s, kind, x, p, r):
    if kind == 'mjp' or kind == 'rw':
        s.adapt(x, p)
    else:
        s.adapt(np.array(x), p)


def snapshot(s):
    out = {}
    for k, v in sorted(vars(s).items()):
        try:
            digest(v)
            out[k] = v
        except TypeError:
            out[k] = plain(v) if hasattr(v, 'xt') else repr(v)
    return out


# the samplers of real chains ---------------------------------------------------------------------

def ito(job, rec):
    from ctbayes.ito import mcmc
    from ctbayes.misc.adapt import MyopicRwSampler
    m = models.module('ito')
    r = rng(job['seed'])
    t, vt = models.data_set('even', job['n_obs'], r)
    world.Scheduler(seed=job['seed'], serialize=job['cores'] > 1, rec=rec).install()
    ome = world.gen(derive(job['seed'], 'ome'), world.Control(rec, max_draws=40000).install())
    mod = mcmc.Model(t, vt, m.bounds_thi, m.eval_log_prior, m.sample_aug, m.gen_normops, m.eval_biased_log_lik,
                     m.eval_disc, m.eval_bounds_disc, m.eval_bounds_grad)
    ctrl = mcmc.Controls(opt_acc_prob=job['opt'], n_cores=job['cores'], precoin=job['precoin'], pr_portkey=job['portkey'])
    thi = np.exp(.3 * r.normal(size=2))
    z = m.sample_aug(thi, t, vt, ome)
    ss = [MyopicRwSampler(a, b, job['opt']) for a, b in zip(thi, np.array(m.bounds_thi).T)]
    refs = [Reference(s, [b], job['opt'], s.adapt_decay, 'rw') for s, b in zip(ss, np.array(m.bounds_thi).T)]
    rec.count('runs')
    for k in range(job['steps']):
        seen = [len(s.emp_prob) for s in ss]
        old = thi
        thi, z = mcmc.update_joint(thi, z, mod, ctrl, ss, ome)
        where = 'step %d' % (k + 1)
        grown = [len(s.emp_prob) - a for s, a in zip(ss, seen)]
        if sorted(grown) != [0, 1]:
            raise Violation('adapted-wrongly', '%s: samplers learned %s times in one step' % (where, grown))
        i = grown.index(1)
        p = ss[i].emp_prob[-1]
        if (p > 0) != bool(np.any(old != thi)) or np.any(np.delete(old != thi, i)):
            raise Violation('acceptance-misreported', '%s: reported %g to sampler %d, moved %s' % (where, p, i, old != thi))
        refs[i].check(ss[i], thi[i], p, where)
        if any(float(s.state) != x for s, x in zip(ss, thi)):
            raise Violation('not-centred', '%s: samplers at %s, chain at %s' % (where, [s.state for s in ss], thi))
        rec.count('steps')
        rec.count('probe:chain moves accepted', int(p > 0))
        rec.state('ito', i, min(len(ss[i].log_prop_scale), 12), p)
    rec.log('ito', [float(x) for x in thi])


def switching(job, rec):
    from ctbayes.misc.adapt import MyopicMjpSampler, MyopicMvRwSampler
    from ctbayes.mjplib import skeleton as J
    from ctbayes.switching import types as T
    m = models.module(job['model'])
    r = rng(job['seed'])
    K = job['regimes']
    t, vt = models.data_set('even', job['n_obs'], r)
    world.Scheduler(seed=job['seed'], serialize=False, rec=rec).install()
    ome = world.gen(derive(job['seed'], 'ome'), world.Control(rec, max_draws=40000).install())
    thi = np.array([np.array(m.init_thi) * np.exp(.3 * r.normal(size=2)) for _ in range(K)])
    lam = np.ones((K, K)) - K * np.eye(K)
    y = J.sample_forwards(t[-1], None, lam, ome)
    z, h = m.sample_aug(thi, y, t, vt, ome)
    ps, ys = [MyopicMvRwSampler(thi[i], m.bounds_thi, job['opt']) for i in range(K)], MyopicMjpSampler(y, job['opt'])
    bs = list(zip(*m.bounds_thi))
    refs = [Reference(s, bs, job['opt'], s.adapt_decay, 'mvrw') for s in ps]
    ref = Reference(ys, None, job['opt'], ys.adapt_decay, 'mjp')
    it = m.sample_posterior(t, vt, K, 1., 1., ome=ome, n_cores=job['cores'], precoin=job['precoin'], pr_portkey=job['portkey'],
                            opt_acc_prob=job['opt'], state={'thi': thi, 'lam': lam, 'z': z, 'h': h, 'param_samplers': ps,
                                                            'regime_sampler': ys, 'ome': ome})
    rec.count('runs')
    for k in range(job['steps']):
        seen = [len(s.emp_prob) for s in ps + [ys]]
        old = thi
        thi, lam, z, h = next(it)
        where = 'step %d' % (k + 1)
        if any(len(s.emp_prob) != a + 1 for s, a in zip(ps + [ys], seen)):
            raise Violation('adapted-wrongly', '%s: a sampler did not learn exactly once' % where)
        for i, s in enumerate(ps):
            p = s.emp_prob[-1]
            if (p > 0) != bool(np.any(old[i] != thi[i])):
                raise Violation('acceptance-misreported', '%s: reported %g, regime %d moved %s' % (where, p, i, old[i] != thi[i]))
            refs[i].check(s, thi[i], p, where)
            rec.state(job['model'], min(len(s.log_prop_scale), 12), p)
        if not 0 <= ys.emp_prob[-1] <= 1:
            raise Violation('acceptance-misreported', '%s: %r' % (where, ys.emp_prob[-1]))
        ref.check(ys, T.prune_anchorage(h), ys.emp_prob[-1], where)
        rec.count('steps')
        rec.count('probe:chain moves accepted', int(np.any(old != thi)))
    rec.log('switching', float(np.sum(thi)))


def law(job, rec):
    """Proposals are centred on the state and shaped by the covariance in force, after any history."""
    from ctbayes.misc import adapt as A
    kind = job['kind'][4:]
    r = rng(job['seed'])
    dim = 1 if kind == 'rw' else job['dim']
    bounds = [BOUNDS[b] for b in job['bounds'][:dim]]
    j = dict(job, kind=kind, opt=.2, decay=.66, air=1, spread=1.)
    s, x, _, _ = build(j, r)
    ome = world.gen(derive(job['seed'], 'ome'), world.Control(rec).install())
    rec.count('runs')
    for i in range(job['n']):
        out = s.propose(ome)
        a = np.array([real(v, *b) for v, b in zip(np.atleast_1d(out[0]), bounds)])
        c = np.array([real(v, *b) for v, b in zip(np.atleast_1d(x), bounds)])
        d = (a - c) / np.exp(s.log_prop_scale[-1] / (1 if kind == 'rw' else 2))
        if kind == 'mvrw':
            cov = np.asarray(s.prop_cov, float)
            d = np.linalg.solve(np.linalg.cholesky(cov + 1e-12 * np.eye(dim)), d)
            rec.acc('product', np.tanh(d[0] * d[1]))
            rec.acc('ratio', np.tanh(d[0] ** 2) - np.tanh(d[1] ** 2))
        rec.acc('centre', np.tanh(d))
        rec.acc('sign', np.sign(d), 1.)
        if i % 3 == 0:      # the chain moves on and the sampler adapts
            y = np.array([c_ + .7 * r.normal(size=dim) @ np.ones(dim) if abs(c_) < 2 else .9 * c_ for c_ in c])
            v = [b[0] + np.exp(y_) if half(*b) > 0 else b[1] - np.exp(y_) if half(*b) < 0 else y_ for y_, b in zip(y, bounds)]
            x = float(v[0]) if kind == 'rw' else np.array(v)
            s.adapt(x, float(r.random() < .25))
        rec.count('steps')
    rec.log(kind, float(np.sum(x)))


def shrink(job):
    if job['kind'] in ('rw', 'mvrw', 'mjp'):
        if job['faults']:
            yield dict(job, faults=0.)
        for p in ('never', 'always'):
            if job['pattern'] != p:
                yield dict(job, pattern=p)
        if job['dim'] > 1:
            yield dict(job, dim=1)
        for b in (['positive'] * 3, ['free'] * 3):
            if job['bounds'] != b and (job['bounds'] != ['positive'] * 3):
                yield dict(job, bounds=b)
        for d in drop_each([k for k in range(job['steps']) if k not in job['drop']]) if job['steps'] <= 40 else ():
            yield dict(job, drop=[k for k in range(job['steps']) if k not in d])
    if 'steps' not in job:
        return
    for n in (1, 2, 4, job['steps'] // 2, job['steps'] - 1):
        if 0 < n < job['steps']:
            yield dict(job, steps=n)
