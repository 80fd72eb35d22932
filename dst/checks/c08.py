"""C08: the hidden state of the switching chain stays coherent with the data."""
import numpy as np

from dst import models, world
from dst.core import Alarm, NoProgress, Violation, derive, digest, rng

INFO = dict(
    level='exploration', slow_ok=.02,
    rule='a run drives one chain (or EM stream) on a generated data set for many steps under a seeded schedule and '
         'checks every hidden state it hands out against the data, the samplers and recomputed rate statistics; '
         'non-trivial when regimes jumped and sections were replaced; states = digests of (model, observations, '
         'anchors, regimes used, sections replaced)',
    real='ctbayes.switching (mcmc, mcem, static, types), mjplib, misc.adapt, ea3lib, sdelib; joblib dispatch',
    stubs='joblib process pool replaced by seeded virtual workers',
    assumptions=['observation times increase and start at zero'])


def plan(tier, seed):
    n = 260 if tier == 'quick' else 4000
    jobs = []
    for i in range(n):
        r = rng('C08', seed, i)
        n_obs = int(r.choice([2, 2, 3, 3, 4, 5, 8, 15, 30]))
        jobs.append({'seed': derive('C08', seed, i), 'stream': str(r.choice(['fresh', 'state', 'state', 'em'])),
                     'model': str(r.choice(['ou', 'ou2', 'ou3', 'ou+log'])), 'n_obs': n_obs,
                     'data': str(r.choice(['even', 'decimal', 'uniform', 'clustered', 'integer'])),
                     'values': str(r.choice(['walk', 'walk', 'constant', 'zeros', 'jumpy', 'integer'])),
                     'regimes': int(r.choice([2, 2, 3, 5])), 'steps': int(r.integers(4, 40)) if n_obs < 15 else 8,
                     'a0': float(r.choice([1., 2., 5.])), 'b0': float(r.choice([1., .3])),
                     'precoin': bool(r.random() < .5), 'batch': int(r.choice([1, 2, 10])),
                     'portkey': float(r.choice([.01, .01, .3])), 'cores': int(r.choice([1, 1, 2, 3])),
                     'order': str(r.choice(['random', 'lifo', 'fifo'])), 'eager': bool(r.random() < .5)})
    return jobs


def data(job, r):
    n = job['n_obs']
    if job['data'] == 'integer':
        t, vt = np.arange(n), models.data_set('even', n, r)[1]
    else:
        t, vt = models.data_set(job['data'], n, r)
    if job['values'] == 'constant':
        vt = np.repeat(.7, n)
    elif job['values'] == 'zeros':
        vt = np.zeros(n)
    elif job['values'] == 'jumpy':
        vt = vt + 2. * (r.random(n) < .3)
    elif job['values'] == 'integer':
        vt = r.integers(-1, 2, n)
    if t[-1] > 4 and job['data'] != 'integer':
        t = t * (4 / t[-1])
    if job['model'].endswith('+log'):
        vt = np.exp(vt)
    return t, vt


def check_seed(z, where):
    s, v = np.asarray(z.s, float), np.asarray(z.z, float)
    lo, hi = min(z.tight_z, z.loose_z), max(z.tight_z, z.loose_z)
    eps = 1e-9 * max(1, abs(lo), abs(hi))
    if len(s) != len(v) or len(s) < 3 or s[0] != 0 or abs(s[-1] - 1) > 1e-12 or np.any(np.diff(s) <= 0):
        raise Violation('seed-times', '%s: %s' % (where, s))
    if abs(v[0]) > eps or abs(v[-1]) > eps:
        raise Violation('seed-ends', '%s: starts at %g, ends at %g' % (where, v[0], v[-1]))
    if not np.isfinite(lo) or not np.isfinite(hi) or v.min() < lo - eps or v.max() > hi + eps:
        raise Violation('seed-bounds', '%s: values %g..%g, bounds %g..%g' % (where, v.min(), v.max(), lo, hi))
    if np.min(np.abs(v - z.tight_z)) > eps:
        raise Violation('seed-extremum', '%s: extremum %g not on the path' % (where, z.tight_z))
    if not lo - eps <= z.hit_z <= hi + eps:
        raise Violation('seed-bounds', '%s: far level %g not within %g..%g' % (where, z.hit_z, lo, hi))
    if z.hit_i is not None and len(z.hit_i) != len(s) - 1:
        raise Violation('seed-record', '%s: %d flags for %d stretches' % (where, len(z.hit_i), len(s) - 1))


def check_hidden(z, h, t, vt, n_regimes, where):
    tt, yt, hv = np.asarray(h.t), np.asarray(h.yt), np.asarray(h.vt, float)
    if not len(tt) == len(yt) == len(hv):
        raise Violation('anchor-shape', '%s: %d times, %d regimes, %d values' % (where, len(tt), len(yt), len(hv)))
    if tt[0] != t[0] or tt[-1] != t[-1]:
        raise Violation('window', '%s: hidden state on [%r, %r], data on [%r, %r]' % (where, tt[0], tt[-1], t[0], t[-1]))
    if np.any(np.diff(tt) <= 0):
        raise Violation('anchors-not-increasing', '%s: smallest gap %g' % (where, np.min(np.diff(tt))))
    ix = np.searchsorted(tt, t)
    if np.any(ix >= len(tt)) or np.any(tt[np.minimum(ix, len(tt) - 1)] != t):
        raise Violation('observation-lost', '%s: times %s are not anchors' % (where, t[~np.isin(t, tt)]))
    if np.any(np.abs(hv[ix] - vt) > 1e-12 * np.maximum(1, np.abs(vt))):
        raise Violation('observation-altered', '%s: values %s, observed %s' % (where, hv[ix], vt))
    if not np.all(np.isfinite(hv)):
        raise Violation('anchor-value', '%s: not finite' % where)
    if np.any(yt < 0) or np.any(yt >= n_regimes) or np.any(yt != np.round(yt)):
        raise Violation('regime-unknown', '%s: %s' % (where, yt))
    is_obs = np.zeros(len(tt), bool)
    is_obs[ix] = True
    change = np.append(True, yt[1:] != yt[:-1])
    if np.any(change[1:] & is_obs[1:]):
        raise Violation('regime-change-at-observation', '%s: at times %s' % (where, tt[1:][(change & is_obs)[1:]]))
    if np.any(~change & ~is_obs):
        raise Violation('idle-anchor', '%s: neither observation nor regime change at %s' % (where, tt[~change & ~is_obs]))
    if len(z) != len(tt) - 1:
        raise Violation('seed-count', '%s: %d seeds for %d stretches' % (where, len(z), len(tt) - 1))
    for k, z_ in enumerate(z):
        check_seed(z_, '%s, stretch %d' % (where, k))
    return is_obs, change


def check_stats(h, n, where):
    """Rate statistics recomputed from the anchors alone."""
    from ctbayes.mjplib import inference
    from ctbayes.switching import types
    tt, yt = np.asarray(h.t, float), np.asarray(h.yt)
    hold, trans = np.zeros(n), np.zeros((n, n))
    for a, b, y0, y1 in zip(tt, tt[1:], yt, yt[1:]):
        hold[y0] += b - a
        if y0 != y1:
            trans[y0, y1] += 1
    r = rng('C08 prior', where)
    alp0, bet0 = r.gamma(2, 1, (n, n)) + .1, r.gamma(2, 1, (n, n)) + .1
    np.fill_diagonal(alp0, np.nan), np.fill_diagonal(bet0, np.nan)
    y = types.prune_anchorage(h)
    alp, bet = inference.update(y, alp0.copy(), bet0.copy())
    off = ~np.eye(n, dtype=bool)
    if np.any(np.abs((alp - alp0 - trans)[off]) > 1e-9):
        raise Violation('jumps-miscounted', '%s: counted %s, path has %s' % (where, (alp - alp0).tolist(), trans.tolist()))
    want = np.repeat(hold[:, None], n, 1)
    if np.any(np.abs((bet - bet0 - want)[off]) > 1e-9 * tt[-1]):
        raise Violation('time-miscounted', '%s: counted %s, path has %s of %g' % (
            where, (bet - bet0).tolist(), hold.tolist(), tt[-1]))
    lam = inference.get_ev(alp, bet)
    ll = float(np.sum(trans[off] * np.log(lam[off])) + hold @ np.diag(lam))
    got = inference.eval_loglik(y, lam)
    if abs(ll - got) > 1e-8 * max(1, abs(ll)):
        raise Violation('regime-likelihood', '%s: %r, recomputed %r' % (where, got, ll))
    return y


def check_rates(lam, where):
    off = ~np.eye(len(lam), dtype=bool)
    if np.any(lam[off] < 0) or np.any(np.diag(lam) > 0) or np.any(np.abs(lam.sum(1)) > 1e-9 * np.abs(lam).max()) \
            or not np.all(np.isfinite(lam)):
        raise Violation('rates-invalid', '%s: %s' % (where, np.asarray(lam).tolist()))


def run(job, rec):
    try:
        chain(job, rec)
    except NoProgress as e:
        if isinstance(e, Alarm):
            raise
        rec.count('probe:runs cut short as too costly')


def chain(job, rec):
    from ctbayes.misc.adapt import MyopicMjpSampler, MyopicMvRwSampler
    from ctbayes.mjplib import skeleton as J
    mod = models.assemble(job['model'])
    base = models.module(job['model'].split('+')[0])
    r = rng(job['seed'])
    t, vt = data(job, r)
    t_in, v_in = t.copy(), vt.copy()
    n = job['regimes']
    world.Scheduler(seed=job['seed'], serialize=job['cores'] > 1, order=job['order'], rec=rec).install()
    ctl = world.Control(rec, max_draws=60000).install()
    ome = world.gen(derive(job['seed'], 'ome'), ctl)
    rec.count('runs')
    rec.count('sim_time', float(t[-1]) * job['steps'])
    if job['stream'] == 'em':
        it = mod.maximize_posterior(t, vt, n, job['a0'], job['b0'], ome=ome, n_cores=job['cores'])
        for k in range(min(3, job['steps'])):
            item = next(it, None)
            if item is None:
                break
            for j, (z, h) in enumerate(zip(item[3], item[4])):
                where = 'EM iteration %d, particle %d' % (k + 1, j + 1)
                check_hidden(z, h, t, vt, n, where)
                check_stats(h, n, where)
            rec.count('steps')
            rec.state(job['model'], job['n_obs'], [len(h.t) for h in item[4]])
            rec.log(k, [len(h.t) for h in item[4]], float(item[0]))
        return
    kw = dict(n_cores=job['cores'], precoin=job['precoin'], ea_batch_size=job['batch'], pr_portkey=job['portkey'])
    regime = params = None
    if job['stream'] == 'state':
        lam = r.gamma(job['a0'], 1 / job['b0'], (n, n))
        np.fill_diagonal(lam, 0)
        np.fill_diagonal(lam, -lam.sum(1))
        thi = np.array([np.array(base.init_thi) * np.exp(.3 * r.normal(size=2)) for _ in range(n)])
        y = J.sample_forwards(t[-1], None, lam, ome)
        z, h = mod.sample_aug(thi, y, t, vt, ome)
        check_hidden(z, h, t, vt, n, 'start')
        check_stats(h, n, 'start')
        params = [MyopicMvRwSampler(thi[i], base.bounds_thi, .2) for i in range(n)]
        regime = MyopicMjpSampler(y, .2)
        if job['eager']:            # replace few observations' sections at a time, so that sections mix
            regime.log_prop_scale = [float(r.uniform(-3, 1))]
        it = mod.sample_posterior(t, vt, n, job['a0'], job['b0'], ome=ome, state={
            'thi': thi, 'lam': lam, 'z': z, 'h': h, 'param_samplers': params, 'regime_sampler': regime, 'ome': ome}, **kw)
    else:
        it = mod.sample_posterior(t, vt, n, job['a0'], job['b0'], ome=ome, **kw)
    old = None
    for k in range(job['steps']):
        thi, lam, z, h = next(it)
        where = 'step %d' % (k + 1)
        is_obs, change = check_hidden(z, h, t, vt, n, where)
        y = check_stats(h, n, where)
        check_rates(lam, where)
        if np.shape(thi) != (n, 2) or not np.all(np.asarray(thi) > 0):
            raise Violation('parameters-invalid', '%s: %s' % (where, thi))
        if regime is not None:
            s = regime.state
            if len(s.t) != len(y.t) or np.any(np.abs(s.t - y.t) > 1e-9 * t[-1]) or np.any(s.xt != y.xt) \
                    or abs(s.fin_t - y.fin_t) > 1e-9 * t[-1]:
                raise Violation('regime-proposal-stale', '%s: proposal at %s %s, accepted path %s %s' % (
                    where, s.t, s.xt, y.t, y.xt))
            for i, p in enumerate(params):
                if np.any(np.asarray(p.state) != thi[i]):
                    raise Violation('parameter-proposal-stale', '%s: regime %d proposes around %s, chain at %s' % (
                        where, i, p.state, thi[i]))
        moved = old is None or digest(old) != digest(h)
        rec.count('steps')
        rec.count('probe:hidden state replaced', int(moved))
        rec.count('probe:anchors besides observations', int((~is_obs).sum()))
        rec.state(job['model'], job['n_obs'], min(len(h.t), 60), len(set(h.yt.tolist())), moved)
        rec.log(k, len(h.t), float(np.sum(h.vt)))
        old = h
    if np.any(t != t_in) or np.any(vt != v_in):
        raise Violation('data-altered')


def shrink(job):
    if job['cores'] > 1:
        yield dict(job, cores=1)
    for s in (1, job['steps'] // 2, job['steps'] - 1):
        if 0 < s < job['steps']:
            yield dict(job, steps=s)
    for n in (2, 3, 4):
        if n < job['n_obs']:
            yield dict(job, n_obs=n)
    if job['regimes'] > 2:
        yield dict(job, regimes=2)
