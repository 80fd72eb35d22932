"""C12: EM iterations chain, stay in bounds, and stop at convergence."""
import numpy as np
from toolz import curry

from dst import joint, models, world
from dst.core import Alarm, NoProgress, Violation, derive, rng, skip

INFO = dict(
    level='exploration', slow_ok=.05,
    rule='a run drives one EM stream under a seeded schedule with recorded model callbacks and optimizer calls and '
         'checks how parameters, particles and objectives chain; score runs start a stream at exactly simulated data '
         'and paths and compare the slope of its objective with the closed-form score; states = (model, bounds, '
         'iteration, particles, stopped) classes',
    real='ctbayes.ito and ctbayes.switching (mcem, mcmc, static, shipped models), mjplib, ea3lib, sdelib, misc; '
         'scipy optimizer; joblib dispatch',
    stubs='joblib process pool replaced by seeded virtual workers; in score runs the optimizer is replaced by a probe '
          'of the objective',
    assumptions=['score identities are judged statistically in two stages, the rest exactly'])

BOXES = {'shipped': None, 'box': ([.3, .4], [2., 1.6]), 'narrow': ([.9, .5], [.912, 3.]), 'corner': ([1., 1.], [4., 5.])}


def plan(tier, seed):
    n, reps, m = (170, 24, 40) if tier == 'quick' else (3000, 200, 120)
    jobs = []
    for i in range(n):
        r = rng('C12', seed, i)
        jobs.append({'kind': 'stream', 'seed': derive('C12', seed, i), 'model': str(r.choice(['ito', 'ito', 'ou', 'ou2', 'ou3', 'ou+log'])),
                     'n_obs': int(r.choice([2, 3, 5, 8])), 'data': str(r.choice(['even', 'uniform', 'decimal'])),
                     'box': str(r.choice(list(BOXES))), 'buffer': float(r.choice([1e-2, 1e-1, 1e-3])),
                     'ftol': float(r.choice([.01, .1, .5, 3.])), 'rate': float(r.choice([1., 1.2, 1.5, 2.])),
                     'thin': int(r.choice([1, 2, 3])), 'supports': int(r.choice([1, 2, 5])),
                     'cores': int(r.choice([1, 1, 2, 3])), 'most': int(r.choice([2, 4, 7])), 'regimes': int(r.choice([2, 3])),
                     'a0': float(r.choice([1., 2., 4.])), 'b0': float(r.choice([1., .5])),
                     'init': [float(x) for x in np.exp(r.normal(size=2) * .4)],
                     'crash': int(r.integers(1, 40)) if r.random() < .15 else 0})
    for i in range(n // 8):
        r = rng('C12e', seed, i)
        jobs.append({'kind': 'exact', 'seed': derive('C12e', seed, i), 'n_obs': int(r.choice([3, 8, 20])),
                     'init': [float(r.normal()), float(np.exp(r.normal() * .7))]})
    for name in ('ito', 'ou', 'ou2', 'ou3', 'ou+log'):
        for i in range(reps):
            r = rng('C12s', seed, name, i)
            jobs.append({'kind': 'score', 'group': 'score ' + name, 'seed': derive('C12s', seed, name, i), 'n': m * (2 if name == 'ito' else 1),
                         'model': name, 'n_obs': int(r.choice([2, 3, 5])), 'supports': int(r.choice([1, 2, 4])),
                         'horizon': float(r.choice([.6, 1.5])), 'thin': int(r.choice([1, 2])),
                         'init': [float(x) for x in np.exp(r.normal(size=4) * [.4, .25, .4, .25])]})
    rng('C12order', seed).shuffle(jobs)
    return jobs


def run(job, rec):
    if job['kind'] == 'score':
        return score(job, rec)
    try:
        {'stream': stream, 'exact': exact}[job['kind']](job, rec)
    except NoProgress as e:
        if isinstance(e, Alarm):
            raise
        rec.count('probe:runs cut short as too costly')


class Seen(world.ByReference):
    """What the stream did since the last iterate."""

    def __init__(self):
        self.at, self.opt = [], []

    def clear(self):
        self.__init__()

    def __call__(self, real, fun, x0, *a, **k):
        res = real(fun, x0, *a, **k)
        bounds = k.get('bounds')
        self.opt.append((np.array(x0, float), a[0] if a else k.get('args', ()), None if bounds is None else np.array(bounds, float),
                         np.array(res.x, float), float(res.fun)))
        return res


def buffered(lb, ub, buffer):
    lb, ub = np.asarray(lb, float), np.asarray(ub, float)
    d = np.minimum((ub - lb) / 2, buffer)
    return lb + d, ub - d


def stream(job, rec):
    seen = Seen()
    name = job['model']
    is_ito = name == 'ito'

    def wrap(n, f):
        if n != 'eval_bounds_disc':
            return f
        if is_ito:
            def g(thi, lo, hi):
                seen.at.append(np.array(thi, float))
                return f(thi, lo, hi)
        else:
            def g(thi, y, lo, hi):
                seen.at.append(np.array(thi, float))
                return f(thi, y, lo, hi)
        return curry(g)

    box = BOXES[job['box']]
    base = models.module(name.split('+')[0])
    bounds = None if box is None else tuple(np.array(b) for b in box)
    init = np.array(job['init'])
    M = models.assemble(name, wrap, init, bounds)
    lb, ub = buffered(*(bounds or base.bounds_thi), job['buffer'])
    if np.any(init < lb) or np.any(init > ub):      # start inside what the parameters may be
        init = np.clip(init, lb, ub)
        M = models.assemble(name, wrap, init, bounds)
    r = rng(job['seed'])
    t, vt = models.data_set(job['data'], job['n_obs'], r)
    t = t * min(1, 2. / t[-1])
    if name.endswith('+log'):
        vt = np.exp(vt)
    rec.count('runs')
    s = world.Scheduler(seed=job['seed'], serialize=job['cores'] > 1, rec=rec, crash_task=job['crash'] or None).install()
    ome = world.gen(derive(job['seed'], 'ome'), world.Control(rec, max_draws=80000).install())
    world.hook_optimizer(seen)
    kw = dict(ftol=job['ftol'], learning_rate=job['rate'], bound_buffer=job['buffer'], n_thin_mcmc=job['thin'],
              n_disc_supports=job['supports'], n_cores=job['cores'])
    K = job['regimes']
    it = M.maximize_posterior(t, vt, ome=ome, **kw) if is_ito else \
        M.maximize_posterior(t, vt, K, job['a0'], job['b0'], ome=ome, **kw)
    thi = init if is_ito else np.repeat(init[None], K, 0)
    objs, sizes, lam, start = [], [], None, True
    for k in range(job['most']):
        seen.clear()
        try:
            item = next(it, None)
        except world.SimCrash:
            if not s.fired:
                raise
            return
        if s.fired:
            raise Violation('failure-hidden', 'a killed task did not fail iteration %d' % (k + 1))
        where = 'iteration %d' % (k + 1)
        if item is None:
            if k < 2 or not abs(objs[-1] - objs[-2]) < job['ftol']:
                raise Violation('stopped-early', 'after %d iterations, objectives %s, tolerance %g' % (k, objs[-2:], job['ftol']))
            rec.count('probe:streams converged')
            rec.state(name, job['box'], k, sizes[-1], 'stopped')
            break
        if k > 1 and abs(objs[-1] - objs[-2]) < job['ftol']:
            raise Violation('not-stopped', 'objectives %s, tolerance %g' % (objs[-2:], job['ftol']))
        obj, new, zz = item[0], np.array(item[1], float), item[2 if is_ito else 3]
        # paths are sampled at the previous parameters, which the optimizer starts from
        off = [a for a in seen.at if np.shape(a) != np.shape(thi) or np.any(a != thi)]
        if off:
            raise Violation('paths-at-other-parameters', '%s sampled paths at %s, previous parameters %s' % (
                where, off[0].tolist(), thi.tolist()))
        rec.count('probe:path updates seen', len(seen.at))
        rec.count('probe:optimizer calls seen', len(seen.opt))
        if seen.opt:
            if len(seen.opt) != (1 if is_ito else K):
                raise Violation('optimizer-calls', '%s made %d' % (where, len(seen.opt)))
            for x0, args, bnd, x, fun in seen.opt:
                i = None if is_ito else args[0]
                old, now = (thi, new) if is_ito else (thi[i], new[i])
                if np.any(x0 != old):
                    raise Violation('not-chained', '%s started the search at %s, previous parameters %s' % (where, x0, old))
                if np.any(now != x):
                    raise Violation('optimum-dropped', '%s returned %s, the search found %s' % (where, now, x))
                if bnd is None or np.any(np.abs(bnd - np.transpose([lb, ub])) > 1e-12):
                    raise Violation('search-bounds', '%s searched %s, buffered bounds %s, %s' % (where, bnd, lb, ub))
        if np.any(new < lb - 1e-12) or np.any(new > ub + 1e-12) or not np.all(np.isfinite(new)):
            raise Violation('out-of-bounds', '%s: %s outside %s, %s' % (where, new.tolist(), lb, ub))
        if not np.isfinite(obj):
            raise Violation('objective', '%s: %r' % (where, obj))
        if not is_ito:
            lam2, hh = np.array(item[2], float), item[4]
            want, obj_lam = rates_mode(hh, K, job['a0'], job['b0'])
            if np.any(np.abs(lam2 - want) > 1e-9 * (1 + np.abs(want))):
                raise Violation('rates-not-mode', '%s: %s, closed form %s' % (where, lam2.tolist(), want.tolist()))
            if len(hh) != len(zz):
                raise Violation('particles', '%s: %d regime paths, %d path sets' % (where, len(hh), len(zz)))
        else:
            obj_lam = 0.
        if seen.opt and abs(obj - obj_lam + sum(o[4] for o in seen.opt)) > 1e-8 * (1 + abs(obj)):
            raise Violation('objective', '%s: reported %r, found %r + %r' % (where, obj, -sum(o[4] for o in seen.opt), obj_lam))
        if sizes and len(zz) < sizes[-1] or not len(zz):
            raise Violation('particles', '%s: %d after %s' % (where, len(zz), sizes))
        objs.append(float(obj)), sizes.append(len(zz))
        thi = new
        rec.count('steps')
        rec.count('sim_time', float(t[-1]) * len(zz))
        rec.state(name, job['box'], k, len(zz), bool(np.any(new == lb) or np.any(new == ub)))
        rec.log(k, obj, new.tolist())


def rates_mode(hh, K, a0, b0):
    """Posterior mode of the rates given regime paths, from the anchors alone, with its log posterior."""
    trans, hold = np.zeros((K, K)), np.zeros(K)
    per = []
    for h in hh:
        tr, ho = np.zeros((K, K)), np.zeros(K)
        for a, b, y0, y1 in zip(h.t, h.t[1:], h.yt, h.yt[1:]):
            ho[y0] += b - a
            tr[y0, y1] += y0 != y1
        per.append((tr, ho))
        trans += tr / len(hh)
        hold += ho / len(hh)
    off = ~np.eye(K, dtype=bool)
    lam = (trans + a0 - 1) / (hold[:, None] + b0)
    lam[~off] = 0
    pos = lam > 0
    ll = np.sum(trans[pos] * np.log(lam[pos])) - np.sum(hold * lam.sum(1))
    lp = np.sum((a0 - 1) * np.log(lam[pos]) - b0 * lam[pos])
    np.fill_diagonal(lam, -lam.sum(1))
    return lam, float(ll + lp)


# a model whose objective is known exactly: drifted Brownian motion --------------------------------

def exact(job, rec):
    from ctbayes.ito import static
    r = rng(job['seed'])

    def prior(thi):
        return -np.inf if thi[1] <= 0 else float(-thi[0] ** 2 / 4 - np.log(thi[1]) - np.log(thi[1]) ** 2 / 2)

    def level(thi, lo, hi):
        c = (thi[0] / thi[1]) ** 2 / 2
        return c, c, c + 1e-9
    fs = static.assemble_model(
        np.array(job['init']), (-np.inf, np.inf), (np.array([-np.inf, 0.]), np.array([np.inf, np.inf])),
        lambda thi, v: v / thi[1], lambda thi, x: x * thi[1], lambda thi, v: np.ones(np.shape(v)) / thi[1],
        lambda thi, x: np.full(np.shape(x), thi[0] / thi[1]), lambda thi, x: x * thi[0] / thi[1],
        lambda thi, x: np.zeros(np.shape(x)), curry(level), lambda *a: np.zeros(2), prior)
    t, vt = models.data_set('uniform', job['n_obs'], r)
    world.Scheduler(seed=job['seed'], serialize=False, rec=rec).install()
    ome = world.gen(derive(job['seed'], 'ome'), world.Control(rec, max_draws=80000).install())
    out = []
    for k, item in enumerate(fs[5](t, vt, ome=ome, ftol=1e-7, bound_buffer=1e-3)):
        out.append(item)
        if k > 12:
            raise Violation('no-convergence', 'a known objective: %s' % [o[0] for o in out[-3:]])

    def f(x):
        m, s = x[0], x[1]
        if s <= 0:
            return 1e9
        z = (np.diff(vt) - m * np.diff(t)) / (s * np.sqrt(np.diff(t)))
        return np.sum(z ** 2) / 2 + (len(t) - 1) * np.log(s) - prior(x)
    best = min((world.REAL_MINIMIZE(f, [m0, s0], method='Nelder-Mead', options=dict(xatol=1e-9, fatol=1e-12, maxiter=4000))
                for m0 in (-1., 1.) for s0 in (.3, 1.)), key=lambda o: o.fun)
    got = np.asarray(out[-1][1], float)
    if f(got) > best.fun + 1e-4 * (1 + abs(best.fun)):
        raise Violation('not-at-mode', 'ended at %s (%g below the mode at %s)' % (got, f(got) - best.fun, best.x))
    rec.count('runs')
    rec.count('steps', len(out))
    rec.count('probe:exact objectives')
    rec.state('exact', len(out))
    rec.log([float(x) for x in got])


# slope of the objective at exactly simulated paths ------------------------------------------------

class Probe(world.ByReference):
    def __init__(self):
        self.slopes = {}

    def __call__(self, real, fun, x0, *a, **k):
        from scipy.optimize import OptimizeResult
        args = a[0] if a else k.get('args', ())
        x0 = np.array(x0, float)
        g = []
        for j in range(len(x0)):
            h = 1e-5 * x0[j]
            e = np.eye(len(x0))[j] * h
            g.append(-(fun(x0 + e, *args) - fun(x0 - e, *args)) / (2 * h))
        self.slopes[args[0] if args else 0] = np.array(g)
        return OptimizeResult(x=x0, fun=fun(x0, *args), success=True)


def slope(f, x):
    out = []
    for j in range(len(x)):
        h = 1e-5 * x[j]
        e = np.eye(len(x))[j] * h
        out.append((f(x + e) - f(x - e)) / (2 * h))
    return np.array(out)


def ou_log_lik(name, thi_row, t, x, pick=None):
    bet, sig = models.ou_coef(name, thi_row)
    m, s = joint.ou_trans(bet, sig, np.diff(t), x[:-1])
    ll = -np.log(s) - ((x[1:] - m) / s) ** 2 / 2
    return float(np.sum(ll if pick is None else ll[pick]))


def score(job, rec):
    from ctbayes.ea3lib import seed as S
    from ctbayes.mjplib import skeleton as J
    from ctbayes.switching import types as T
    name = job['model']
    is_ito = name == 'ito'
    logv = name.endswith('+log')
    core_name = name.split('+')[0]
    # the stream starts every regime at one row; a user's callbacks may still give each regime its own units
    row, units = np.array(job['init'][:2]), np.array([[1., 1.], job['init'][2:]])
    th, K = (row if is_ito else np.array([row, row])), 2
    full = th if is_ito else th * units

    def wrap(n, f):
        if is_ito or n not in ('eval_drift', 'sx_eval_drift', 'dx_eval_drift', 'eval_vol', 'eval_bounds_disc'):
            return f
        return (lambda thi, y, *a: f(thi * units, y, *a)) if n != 'eval_bounds_disc' else \
            curry(lambda thi, y, lo, hi: f(thi * units, y, lo, hi))
    M, base = models.assemble(name, wrap), models.assemble(core_name)
    for i in range(job['n']):
        r = rng(job['seed'], i)
        ome0 = np.random.Generator(np.random.PCG64(derive(job['seed'], i, 'ome')))
        world.Scheduler(seed=derive(job['seed'], i), serialize=False, rec=rec).install()
        t, _ = models.data_set('uniform', job['n_obs'], r)
        t = t / t[-1] * job['horizon']
        x0 = float(r.uniform(-1.2, 1.2))
        probe = Probe()
        ctl = world.Control(max_draws=30000)
        ome = world.gen(derive(job['seed'], i, 'step'), ctl)
        vt = np.zeros(len(t))
        first = []
        try:
            if is_ito:
                from ctbayes.ito import mcem
                v, z = joint.ito_joint(t, x0, th, M.sample_aug, M.gen_normops, S, r, ome0)
                vt[:] = v

                def aug(thi, t_, vt_, ome_):
                    if not first:
                        first.append(1)
                        return z
                    return M.sample_aug(thi, t_, vt_, ome_)
                mod = mcem.Model(t, vt, M.bounds_thi, M.eval_log_prior, aug, M.gen_normops, M.eval_biased_log_lik,
                                 M.eval_disc, M.eval_bounds_disc)
            else:
                from ctbayes.switching import mcem
                hyper = np.array([[np.nan, 3.], [3., np.nan]]), np.array([[np.nan, 1.], [1., np.nan]]) * job['horizon'] * 1.5
                lam = hyper[0] / hyper[1]
                np.fill_diagonal(lam, -np.nansum(lam, 1))

                def aug(thi, y, t_, vt_, ome_):
                    if not first:       # data and paths given the stream's first regimes
                        world.ACTIVE = None
                        _, h, obs, z = joint.switching_joint(core_name, t, x0, lam, full, base.gen_normops, S, base.bounds_x, T, J,
                                                             r, ome0, regimes=(np.asarray(y.t), np.asarray(y.xt)))
                        world.ACTIVE = ctl
                        h = T.Anchorage(h.t, h.yt, np.exp(h.vt) if logv else h.vt)
                        vt[:] = np.exp(obs) if logv else obs
                        first.append(h)
                        return z, h
                    return M.sample_aug(thi, y, t_, vt_, ome_)
                mod = mcem.Model(t, vt, M.bounds_thi, hyper, M.eval_log_prior, aug, M.gen_normops, M.eval_biased_log_lik,
                                 M.eval_disc, M.eval_bounds_disc)
            ctl.install()
            world.hook_optimizer(probe)
            ctrl = mcem.Controls(n_thin_mcmc=job['thin'], n_disc_supports=job['supports'])
            item = next(mcem.maximize_posterior(row, mod, ctrl, ome))
        except (joint.TooHard, NoProgress) as e:
            if isinstance(e, Alarm):
                raise
            skip(rec, job, e, .08)
            continue
        finally:
            world.ACTIVE = None
            world.hook_optimizer(None)
        rec.count('runs')
        rec.count('steps')
        rec.count('sim_time', job['horizon'])
        if not probe.slopes:
            rec.count('probe:optimizer not reachable')
            continue
        # the objective is additive in the log prior, whose slope is known
        if is_ito:
            g = probe.slopes[0] - slope(M.eval_log_prior, th)
            d = g - slope(lambda q: ou_log_lik('ito', q, t, vt), th)
            rows = [(th, d, g)]
        else:
            h = item[4][-1]
            hx = np.log(h.vt) if logv else np.asarray(h.vt)
            rows = []
            for k in range(K):
                g = probe.slopes[k] - slope(lambda q: M.eval_log_prior(np.vstack([th[:k], q, th[k + 1:]])), th[k])
                pick = np.asarray(h.yt[:-1]) == k
                d = g - slope(lambda q: ou_log_lik(core_name, q * units[k], np.asarray(h.t), hx, pick), th[k])
                if np.any(pick):
                    rows.append((th[k], d, g))
                elif np.any(np.abs(g) > 1e-4 * (1 + np.abs(probe.slopes[k]))):
                    raise Violation('objective-of-absent-regime', 'regime %d never visited, slope %s' % (k, g))
        for q, d, g in rows:
            for k in (0, 1):
                rec.acc('slope %d' % k, d[k] * q[k])
                rec.acc('slope %d s' % k, d[k] * q[k] * np.tanh(np.mean(np.diff(vt) ** 2)))
        rec.state(name, job['n_obs'], len(item[-1][-1].t) if not is_ito else 0, job['supports'])
        rec.log(i, [[float(x) for x in q] for _, q, _ in rows])


def shrink(job):
    if job['kind'] != 'stream':
        return
    for k, v in (('cores', 1), ('crash', 0), ('thin', 1), ('supports', 1), ('regimes', 2), ('box', 'shipped')):
        if job[k] != v:
            yield dict(job, **{k: v})
    for n in (2, 3):
        if n < job['n_obs']:
            yield dict(job, n_obs=n)
    for n in (1, 2, 3):
        if n < job['most']:
            yield dict(job, most=n)
