"""C10: a posterior-sampling update of the switching diffusion started from the exact joint law stays there."""
import numpy as np
from scipy.special import gammainc, ndtr

from dst import joint, models, world
from dst.core import Alarm, NoProgress, derive, rng, skip

INFO = dict(
    level='exploration',
    rule='a run draws rates, regime path, parameters, data and unobserved paths from prior and model with an '
         'independent exact sampler, lets the library perform updates under a seeded schedule, and compares laws '
         'before and after (paired), against the prior and against the closed-form conditioned path; states = '
         '(model, settings, parameters moved, sections replaced, regimes) classes',
    real='ctbayes.switching (mcmc, static, shipped models), mjplib, ea3lib, sdelib, misc; joblib dispatch',
    stubs='joblib process pool replaced by seeded virtual workers',
    assumptions=['sampled evidence: two-stage z tests, about 1e-7 false alarms per test function',
                 'adaptation is frozen during the tested update (proposals then in force)'])

MODELS = ('ou', 'ou2', 'ou3', 'ou+log')
# log-mean, log-sd of the two parameters; horizon
PRIORS = {'shipped': ((0., 0.), (1., .5), .2), 'tight': ((.4, .1), (.3, .25), .9), 'wide': ((0., 0.), (.5, .5), .5)}
_models = {}


def mod_of(name, prior):
    if (name, prior) not in _models:
        mu, sd, _ = PRIORS[prior]

        def log_prior(thi):
            if np.any(np.asarray(thi) <= 0):
                return -np.inf
            x = np.log(thi)
            return -np.sum(x + np.square((x - mu) / np.array(sd)) / 2)
        wrap = None if prior == 'shipped' else (lambda n, f: log_prior if n == 'eval_log_prior' else f)
        m = models.assemble(name, wrap)
        base = models.module(name.split('+')[0])
        m.bounds_thi, m.bounds_x = base.bounds_thi, base.bounds_x
        _models[name, prior] = m
    return _models[name, prior]


def plan(tier, seed):
    jobs = []
    reps, n = (24, 24) if tier == 'quick' else (240, 80)
    for name in MODELS:
        for pre in (True, False):
            for k in range(reps):
                s = derive('C10', seed, name, pre, k)
                r = rng(s)
                jobs.append({'kind': 'step', 'pool': 'step', 'group': 'step %s precoin=%s' % (name, pre), 'seed': s, 'n': n,
                             'model': name, 'precoin': pre, 'prior': ['shipped', 'tight', 'wide'][k % 3],
                             'portkey': float([.01, .4, 0.][int(r.integers(3))]),
                             'batch': int(r.choice([1, 2, 10])), 'cores': int(r.choice([1, 1, 2, 3])),
                             'data': str(r.choice(['even', 'clustered', 'uniform'])),
                             'n_obs': int(r.choice([2, 3, 5, 8])), 'steps': int(r.choice([1, 4, 8])),
                             'regimes': int(r.choice([2, 2, 3])), 'a0': float(r.choice([1.5, 3.])),
                             'jumps': float(r.choice([.7, 2., 4.])), 'keep': float(r.choice([-1.5, 0., 1.5]))})
    for k in range(2 * reps):
        s = derive('C10c', seed, k)
        r = rng(s)
        jobs.append({'kind': 'step', 'group': 'step crowded', 'seed': s, 'n': n, 'model': MODELS[k % 3], 'precoin': bool(k % 2),
                     'prior': 'wide', 'portkey': 0., 'batch': 3, 'cores': 1, 'data': 'even', 'n_obs': 2, 'steps': 3,
                     'regimes': 2, 'a0': 3., 'jumps': 5., 'keep': -1.5})
    for pk in (.9, 0.):
        for k in range(reps):
            jobs.append({'kind': 'one-sided', 'group': 'one-sided portkey=%g' % pk, 'portkey': pk, 'n': 2 * n if pk else n // 2,
                         'steps': 6, 'batch': 2, 'precoin': bool(k % 2), 'seed': derive('C10o', seed, pk, k)})
    rng('C10order', seed).shuffle(jobs)
    return jobs


def run(job, rec):
    {'step': step, 'one-sided': one_sided}[job['kind']](job, rec)


def one_sided(job, rec):
    """Repeated updates of a user's model with fixed parameters: nothing adapts, any number must keep the law."""
    from ctbayes.ea3lib import seed as S
    from ctbayes.misc.adapt import MyopicMjpSampler, MyopicMvRwSampler
    from ctbayes.mjplib import skeleton as J
    from ctbayes.switching import types as T
    if 'one' not in _models:
        _models['one'] = models.one_sided()
    M = _models['one']
    K, a0, t, vobs, thi = 2, 2., np.array([0., 1.]), np.zeros(2), np.ones((2, 2))
    b0 = a0 / .15
    qs = np.array([.2, .4, .6, .8])
    for i in range(job['n']):
        r = rng(job['seed'], i)
        ome = np.random.Generator(np.random.PCG64(derive(job['seed'], i, 'ome')))
        world.Scheduler(seed=derive(job['seed'], i), serialize=False, rec=rec).install()
        # the regimes do not matter for the path: one bridge over the window, seen at the jumps
        lam = joint.rates(r, K, a0, b0)
        jt, jy = joint.jump_process(r, lam, 1.)
        tt = np.append(jt, 1.)
        while True:
            v = np.append(np.cumsum(np.append(0, r.normal(size=len(tt) - 1) * np.sqrt(np.diff(tt)))), 0)[:-1]
            v = v - v[-1] * tt      # Brownian bridge at the anchors
            v[0] = v[-1] = 0
            h = T.Anchorage(tt, np.append(jy, jy[-1]), v)
            z = []
            for ops in M.gen_normops(thi, *h):
                z_ = thin(M, S.sample_raw_seed((-np.inf, np.inf), *ops, ome), ops, S, r, ome)
                if z_ is None:
                    break
                z.append(z_)
            else:
                break
        y0 = J.Skeleton(jt, jy, 1.)
        ctl = world.Control(max_draws=60000).install()
        ome2 = world.gen(derive(job['seed'], i, 'step'), ctl)
        lam2, z2, h2 = lam, z, h
        try:
            for _ in range(job['steps']):
                regime = MyopicMjpSampler(T.prune_anchorage(h2), .2)
                params = [MyopicMvRwSampler(thi[k], (np.zeros(2), np.repeat(np.inf, 2)), .2) for k in range(K)]
                _, lam2, z2, h2 = next(M.sample_posterior(
                    t, vobs, K, a0, b0, ome=ome2, precoin=job['precoin'], ea_batch_size=job['batch'],
                    pr_portkey=job['portkey'], state={'thi': thi, 'lam': lam2, 'z': z2, 'h': h2, 'param_samplers': params,
                                                      'regime_sampler': regime, 'ome': ome2}))
        except NoProgress as e:
            if isinstance(e, Alarm):
                raise
            skip(rec, job, e, .08)
            continue
        world.ACTIVE = None
        f0, f1 = [values(S, M, thi, z_, h_, qs, ome) for z_, h_ in ((z, h), (z2, h2))]
        rec.count('runs')
        rec.count('steps', job['steps'])
        rec.count('sim_time', float(job['steps']))
        rec.count('probe:escape armed', int(job['portkey'] > 0))
        rec.count('probe:one-sided paths replaced', int(z[0].tight_z != z2[0].tight_z))
        rec.state('one-sided', job['portkey'], int(np.sum(f1 > 0)), len(h2.t), min(sum(len(q.s) for q in z2), 40))
        rec.log(i, float(f1.sum()), len(h2.t))
        rec.acc('above zero', np.mean(f1 > 0) - np.mean(f0 > 0))
        rec.acc('level', np.mean(np.tanh(3 * f1)) - np.mean(np.tanh(3 * f0)))
        rec.acc('spread', np.tanh(np.sum(f1 ** 2)) - np.tanh(np.sum(f0 ** 2)))
        rec.acc('jumps', min(len(h2.t), 5) - min(len(h.t), 5))
        top = lambda z_, h_: max(max(q.tight_z, q.loose_z) for q in z_)        # noqa: E731
        rec.acc('ceiling', np.tanh(top(z2, h2)) - np.tanh(top(z, h)) if len(z) == len(z2) == 1 else 0.)
        rec.acc('start', (h2.yt[0] == 0) * 1. - (h.yt[0] == 0))


def values(S, M, thi, z, h, qs, ome):
    out = []
    ops = M.gen_normops(thi, *h)
    for k, z_ in enumerate(z):
        ts = qs[(qs >= h.t[k]) & (qs < h.t[k + 1])] - h.t[k]
        if len(ts):
            out.append(S.interpolate_seed(z_, ts, *ops[k], ome)[1])
    return np.hstack(out)


def thin(M, z, ops, S, r, ome):
    return joint.thin_path(z, ops, M.phi, lambda lo, hi: M.top * (hi > 0) + 1e-9, S, r, ome)


def step(job, rec):
    from ctbayes.ea3lib import seed as S
    from ctbayes.misc.adapt import MyopicMjpSampler, MyopicMvRwSampler
    from ctbayes.mjplib import skeleton as J
    from ctbayes.switching import types as T
    M = mod_of(job['model'], job['prior'])
    name, logv = job['model'].split('+')[0], job['model'].endswith('+log')
    mu, sd, horizon = [np.array(x) for x in PRIORS[job['prior']]]
    K = job['regimes']
    a0, b0 = job['a0'], job['a0'] * float(horizon) * (K - 1) / job['jumps']
    red = np.log if logv else (lambda v: np.asarray(v))
    der = np.exp if logv else (lambda x: x)
    base = mod_of(name, job['prior'])
    off = ~np.eye(K, dtype=bool)
    for i in range(job['n']):
        r = rng(job['seed'], i)
        ome = np.random.Generator(np.random.PCG64(derive(job['seed'], i, 'ome')))
        world.Scheduler(seed=derive(job['seed'], i), serialize=i % 8 == 0, rec=rec).install()
        t, _ = models.data_set(job['data'], job['n_obs'], r)
        t = t / t[-1] * horizon
        thi = np.array([joint.prior_thi(r, mu, sd) for _ in range(K)])
        lam = joint.rates(r, K, a0, b0)
        x0 = float(r.uniform(-1.2, 1.2))
        try:
            y, h, xobs, z = joint.switching_joint(name, t, x0, lam, thi, base.gen_normops, S, M.bounds_x, T, J, r, ome)
            h = T.Anchorage(h.t, h.yt, der(h.vt))
            vobs = h.vt[np.isin(h.t, t)]
            world.Control(max_draws=30000 * job['steps']).install()
            ome2 = world.gen(derive(job['seed'], i, 'step'), world.ACTIVE)
            thi2, lam2, z2, h2 = thi, lam, z, h
            for _ in range(job['steps']):       # fresh proposals each time: nothing adapts in between
                params = [MyopicMvRwSampler(thi2[k], M.bounds_thi, .2) for k in range(K)]
                regime = MyopicMjpSampler(T.prune_anchorage(h2), .2)
                for p in params:
                    p.log_prop_scale = [float(r.uniform(-3, 0))]
                    a = r.normal(size=(2, 2))
                    p.prop_cov = np.eye(2) * .5 + a @ a.T / 4
                regime.log_prop_scale = [job['keep']]
                it = M.sample_posterior(t, vobs, K, a0, b0, ome=ome2, n_cores=job['cores'], precoin=job['precoin'],
                                        ea_batch_size=job['batch'], pr_portkey=job['portkey'],
                                        state={'thi': thi2, 'lam': lam2, 'z': z2, 'h': h2, 'param_samplers': params,
                                               'regime_sampler': regime, 'ome': ome2})
                thi2, lam2, z2, h2 = next(it)
        except (joint.TooHard, NoProgress) as e:
            if isinstance(e, Alarm):
                raise
            skip(rec, job, e, .08)
            continue
        world.ACTIVE = None
        y2 = T.prune_anchorage(h2)
        moved = np.any(thi != thi2, 1)
        new_path = len(h.t) != len(h2.t) or bool(np.any(h.t != h2.t)) or bool(np.any(h.yt != h2.yt))
        rec.count('runs')
        rec.count('steps', job['steps'])
        rec.count('sim_time', float(horizon) * job['steps'])
        rec.count('probe:parameters moved', int(np.any(moved)))
        rec.count('probe:regime path replaced', int(new_path))
        rec.count('probe:regime jumps', len(y.t) - 1)
        rec.count('probe:escape armed', int(job['portkey'] > .1))
        rec.state(job['model'], job['precoin'], job['portkey'], job['prior'], K, int(moved.sum()), new_path, len(y2.t))
        rec.log(i, float(thi2.sum()), len(h2.t), float(np.sum(h2.vt)))

        # parameters and rates keep their prior law, also jointly with the data
        s1 = np.tanh(np.mean(np.diff(red(vobs)) ** 2 / np.diff(t))) - .4
        u0, u1 = ndtr((np.log(thi) - mu) / sd), ndtr((np.log(thi2) - mu) / sd)
        g0, g1 = gammainc(a0, b0 * lam[off]), gammainc(a0, b0 * lam2[off])
        yl = int(h2.yt[int(np.searchsorted(h2.t, t[-1] * .5, side='right')) - 1])   # the regime at mid-time
        yl0 = int(h.yt[int(np.searchsorted(h.t, t[-1] * .5, side='right')) - 1])
        for k in (0, 1):
            rec.acc_pit('prior thi%d' % k, u1[0, k], 4)
            for nm, f in (('u', lambda u: u), ('uu', lambda u: u * u), ('cos', lambda u: np.cos(2 * np.pi * u)),
                          ('s1', lambda u: u * s1)):
                rec.acc('paired thi%d %s' % (k, nm), np.mean(f(u1[:, k]) - f(u0[:, k])))
            rec.acc('paired thi%d of the mid-time regime' % k, u1[yl, k] - u0[yl0, k])
            rec.acc('paired thi%d of the mid-time regime s1' % k, (u1[yl, k] - u0[yl0, k]) * s1)
        rec.acc('paired thi product', np.mean((u1[:, 0] - .5) * (u1[:, 1] - .5) - (u0[:, 0] - .5) * (u0[:, 1] - .5)))
        rec.acc_pit('prior rate', g1[0], 4)
        # the regime path and the rates
        vol = lambda th: np.array([models.ou_coef(name, q)[1] for q in th])        # noqa: E731
        inc = np.tanh(np.diff(red(vobs)) ** 2 / np.diff(t) / 2) - .3
        back = np.tanh(-np.diff(red(vobs)) * red(vobs)[:-1] / np.diff(t))
        mids = (t[1:] + t[:-1]) / 2
        for what, f, data in (('volatility', vol, inc), ('reversion', lambda th: th[:, 0], back)):
            rank = lambda th, y_: (f(th)[y_(mids)] > np.mean(f(th))) * 1.      # noqa: E731
            rec.acc('paired regime %s against data' % what, np.mean((rank(thi2, y2) - rank(thi, y)) * data))
            lev = lambda th, y_: np.tanh(f(th)[y_(mids)] - f(np.exp(mu)[None])[0])       # noqa: E731
            rec.acc('paired level %s against data' % what, np.mean((lev(thi2, y2) - lev(thi, y)) * data))
            rec.acc('paired level %s' % what, np.mean(lev(thi2, y2) - lev(thi, y)))
        n0, n1 = min(len(y.t) - 1, 6), min(len(y2.t) - 1, 6)
        rec.acc('paired jumps', n1 - n0)
        rec.acc('paired no jump', (n1 == 0) * 1. - (n0 == 0))
        rec.acc('paired jumps.rate', n1 * (np.mean(g1) - .5) - n0 * (np.mean(g0) - .5))
        rec.acc('paired jumps.s1', (n1 - n0) * s1)
        for nm, q in (('start', 0.), ('middle', .5), ('end', 1.)):
            a = int(y.xt[np.searchsorted(y.t, q * t[-1], side='right') - 1])
            b = int(y2.xt[np.searchsorted(y2.t, q * t[-1], side='right') - 1])
            rec.acc('paired regime %s' % nm, (b == 0) * 1. - (a == 0))
            if nm == 'start':
                rec.acc('uniform start', (b == 0) - 1 / K, (1 / K) * (1 - 1 / K))
            for what, f in (('fastest', lambda th, lm: th[:, 0]), ('most volatile', lambda th, lm: vol(th)),
                            ('shortest', lambda th, lm: -np.diag(lm))):
                d = float(b == np.argmax(f(thi2, lam2))) - float(a == np.argmax(f(thi, lam)))
                rec.acc('paired %s regime at %s' % (what, nm), d)
                rec.acc('paired %s regime at %s s1' % (what, nm), d * s1)
        tj = lambda y_: float(np.tanh(y_.t[1] / t[-1])) if len(y_.t) > 1 else 1.      # noqa: E731
        rec.acc('paired first jump time', tj(y2) - tj(y))
        occ = lambda y_: float(np.diff(np.append(y_.t, y_.fin_t)) @ (y_.xt == y_.xt[0])) / t[-1]      # noqa: E731
        rec.acc('paired time in first regime', occ(y2) - occ(y))
        # values at anchors: transition residuals are standard normal under the updated parameters
        xh = red(h2.vt)
        j = min(int(np.searchsorted(h2.t, r.uniform(0, t[-1]), side='right')) - 1, len(z2) - 1)
        for q, k in (('mid', j), ('jump', None)):
            if k is None:
                fresh = np.nonzero(~np.isin(h2.t[1:], t))[0]         # stretches that end in a jump
                if not len(fresh):
                    continue
                k = int(fresh[int(r.integers(len(fresh)))])
            bet, sig = models.ou_coef(name, thi2[int(h2.yt[k])])
            m, s = joint.ou_trans(bet, sig, h2.t[k + 1] - h2.t[k], xh[k])
            w = ndtr((xh[k + 1] - m) / s)
            rec.acc_pit('anchor %s' % q, w, 4)
            rec.acc('anchor %s |w|.thi' % q, (abs(w - .5) - .25) * (u1[int(h2.yt[k])][0] - .5))
            rec.acc('anchor %s |w|.thi1' % q, (abs(w - .5) - .25) * (u1[int(h2.yt[k])][1] - .5))
            rec.acc('anchor %s |w|.jumps' % q, (abs(w - .5) - .25) * (n1 - 1.5))
        # several anchors between two observations: closed-form law given those observations
        isobs = np.isin(h2.t, t)
        ob = np.nonzero(isobs)[0]
        for a, b in zip(ob[:-1], ob[1:]):
            if b - a < 3:
                continue
            coef = [models.ou_coef(name, thi2[int(h2.yt[k])]) for k in range(a, b)]
            w = np.array(joint.chain_pit(coef, np.diff(h2.t[a:b + 1]), xh[a:b + 1])) - .5
            sig2 = np.array([c[1] ** 2 for c in coef])
            share = np.cumsum(sig2 * np.diff(h2.t[a:b + 1]))[:-1] / np.sum(sig2 * np.diff(h2.t[a:b + 1]))
            lead = np.tanh(8 * (share - (h2.t[a + 1:b] - h2.t[a]) / (h2.t[b] - h2.t[a])))
            up = np.sign(xh[b] - xh[a])
            rec.acc_pit('anchors between observations', w + .5, 8)
            rec.acc('anchors ahead of time', np.mean(w * lead * up))
            rec.acc('anchors spread by volatility', np.mean((abs(w) - .25) * np.log(sig2[:-1] / np.mean(sig2))))
            rec.acc('anchors spread', np.mean(abs(w) - .25))
            rec.count('probe:crowded intervals')
        # path between anchors
        j0 = min(int(np.searchsorted(h.t, .5 * t[-1], side='right')) - 1, len(z) - 1)
        j1 = min(int(np.searchsorted(h2.t, .5 * t[-1], side='right')) - 1, len(z2) - 1)
        rec.acc('paired extremum', np.tanh(abs(z2[j1].tight_z)) - np.tanh(abs(z[j0].tight_z)))
        rec.acc('paired outer', np.tanh(abs(z2[j1].loose_z)) - np.tanh(abs(z[j0].loose_z)))
        dt = h2.t[j + 1] - h2.t[j]
        ts = np.sort(r.uniform(.02, .98, 2)) * dt
        _, x = S.interpolate_seed(z2[j], ts, *M.gen_normops(thi2, h2.t, h2.yt, h2.vt)[j], ome)
        bet, sig = models.ou_coef(name, thi2[int(h2.yt[j])])
        u = np.array(joint.bridge_pit(bet, sig, 0, dt, xh[j], xh[j + 1], ts, x))
        rec.acc_pit('path', u, 4)
        rec.acc('path |u|.thi', (abs(u[0] - .5) - .25) * (u1[int(h2.yt[j])][0] - .5))
        rec.acc('path product', (u[0] - .5) * (u[1] - .5))


def shrink_law(jobs):
    if any(j['kind'] != 'step' for j in jobs):
        return
    base = [dict(x, cores=1) for x in jobs]
    for prior in ('tight', 'wide', 'shipped'):
        for n_obs in (2, 3):
            yield [dict(x, prior=prior, n_obs=n_obs, data='even', batch=2, regimes=2) for x in base]
