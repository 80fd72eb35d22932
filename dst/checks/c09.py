"""C09: one posterior-sampling update of the plain diffusion started from the exact joint law stays there."""
import numpy as np
from scipy.special import ndtr

from dst import joint, models, world
from dst.core import Alarm, NoProgress, derive, rng, skip

INFO = dict(
    level='exploration',
    rule='a run draws parameters, data and unobserved path from prior and model with an independent exact sampler, '
         'lets the library perform one update under a seeded schedule, and compares laws before and after (paired), '
         'against the prior and against the closed-form conditioned path; non-trivial when the update flipped a '
         'coin; states = (settings, accepted or not, escape possible, coordinates changed) classes',
    real='ctbayes.ito (mcmc, static, models.ou), ea3lib, sdelib, mjplib.sample_ppp, misc; joblib dispatch',
    stubs='joblib process pool replaced by seeded virtual workers',
    assumptions=['sampled evidence: two-stage z tests, about 1e-7 false alarms per test function',
                 'adaptation is frozen during the tested update (proposals then in force)'])

PORT, PRE = (0.0, .01, .5), (True, False)
PRIORS = {'shipped': ((0., 0.), (1., .5), .15), 'slow': ((.9, -.2), (.25, .3), .7), 'fast': ((1.5, 0.), (.2, .3), .35),
          'long': ((.3, -.3), (.4, .3), 2.)}       # many observations, each well after the start
_models = {}


def mod_of(prior):
    if prior not in _models:
        if prior == 'shipped':
            _models[prior] = models.module('ito')
        else:
            mu, sd, _ = PRIORS[prior]

            def log_prior(thi):
                if np.any(np.asarray(thi) <= 0):
                    return -np.inf
                x = np.log(thi)
                return -np.sum(x + np.square((x - mu) / np.array(sd)) / 2)
            m = models.assemble('ito', lambda n, f: log_prior if n == 'eval_log_prior' else f)
            base = models.module('ito')
            for k in ('bounds_thi', 'bounds_x', 'eval_bounds_disc', 'eval_bounds_grad'):
                setattr(m, k, staticmethod(getattr(base, k)) if callable(getattr(base, k)) else getattr(base, k))
            m.eval_log_prior = staticmethod(log_prior)
            _models[prior] = m
    return _models[prior]


def plan(tier, seed):
    jobs = []
    reps, n = (24, 80) if tier == 'quick' else (200, 200)
    for p in PORT:
        for pre in PRE:
            for k in range(reps):
                s = derive('C09', seed, p, pre, k)
                r = rng(s)
                jobs.append({'kind': 'step', 'group': 'step portkey=%g precoin=%s' % (p, pre), 'seed': s, 'n': n,
                             'portkey': p, 'precoin': pre, 'prior': ['shipped', 'slow', 'fast'][k % 3],
                             'batch': int(r.choice([1, 2, 3, 10])), 'cores': int(r.choice([1, 1, 2, 3])),
                             'data': str(r.choice(['even', 'clustered', 'uniform'])), 'n_obs': int(r.choice([2, 3, 6, 8])), 'steps': int(r.choice([1, 3, 4])),
                             'sampler': str(r.choice(['fresh', 'adapted']))})
    for p in PORT[::2]:
        for k in range(reps):
            s = derive('C09l', seed, p, k)
            r = rng(s)
            jobs.append({'kind': 'step', 'group': 'step long portkey=%g' % p, 'seed': s, 'n': n // 2, 'portkey': p,
                         'precoin': bool(r.random() < .5), 'prior': 'long', 'batch': int(r.choice([1, 3, 10])), 'cores': 1,
                         'data': 'even', 'n_obs': int(r.choice([6, 8, 10])), 'steps': 3,
                         'sampler': str(r.choice(['fresh', 'adapted']))})
    for b in ('slow', 'fast'):
        for k in range(reps // 2):
            jobs.append({'kind': 'bridge', 'group': 'bridge %s' % b, 'prior': b, 'n': n,
                         'seed': derive('C09b', seed, b, k)})
    for pk in (.9, 0.0):
        for k in range(reps // 2):
            jobs.append({'kind': 'occupation', 'group': 'occupation portkey=%g' % pk, 'portkey': pk, 'n': 4 * n if pk else n,
                         'batch': 2, 'steps': 4, 'seed': derive('C09o', seed, pk, k)})
    rng('C09order', seed).shuffle(jobs)
    return jobs


def run(job, rec):
    {'step': step, 'bridge': bridge, 'occupation': occupation}[job['kind']](job, rec)


def one_step(job, M, thi, t, vt, z, i, ome, r):
    from ctbayes.ito import mcmc
    from ctbayes.misc.adapt import MyopicRwSampler
    mod = mcmc.Model(t, vt, M.bounds_thi, M.eval_log_prior, M.sample_aug, M.gen_normops, M.eval_biased_log_lik,
                     M.eval_disc, M.eval_bounds_disc, M.eval_bounds_grad)
    ctrl = mcmc.Controls(pr_portkey=job['portkey'], n_cores=job['cores'], ea_batch_size=job['batch'],
                         precoin=job['precoin'])
    if job['sampler'] == 'fresh':
        first = [z]
        mod = mod._replace(sample_aug=lambda *a: first.pop() if first else M.sample_aug(*a))
        return next(mcmc.sample_posterior(thi, mod, ctrl, ome))
    samplers = [MyopicRwSampler(x, b, .2) for x, b in zip(thi, np.array(M.bounds_thi).T)]
    for s in samplers:
        s.log_prop_scale = [float(r.uniform(-2, -.4))]
    return mcmc.update_joint(thi, z, mod, ctrl, samplers, ome)


def data_resid(thi, t, vt):
    bet, sig = models.ou_coef('ito', thi)
    m, sd = joint.ou_trans(bet, sig, np.diff(t), vt[:-1])
    return (vt[1:] - m) / sd


def step(job, rec):
    from ctbayes.ea3lib import seed as S
    M = mod_of(job['prior'])
    mu, sd, horizon = [np.array(x) for x in PRIORS[job['prior']]]
    for i in range(job['n']):
        r = rng(job['seed'], i)
        ome = np.random.Generator(np.random.PCG64(derive(job['seed'], i, 'ome')))
        world.Scheduler(seed=derive(job['seed'], i), serialize=i % 8 == 0, rec=rec).install()
        t, _ = models.data_set(job['data'], job['n_obs'], r)
        t = t / t[-1] * horizon
        thi = joint.prior_thi(r, mu, sd)
        v0 = float(r.uniform(-.25, .25))
        try:
            vt, z = joint.ito_joint(t, v0, thi, M.sample_aug, M.gen_normops, S, r, ome)
            ctl = world.Control(max_draws=25000).install()
            ome2 = world.gen(derive(job['seed'], i, 'step'), ctl)
            thi2, z2 = thi.copy(), z
            for _ in range(job['steps']):       # fresh proposals each time: nothing adapts in between
                thi2, z2 = one_step(job, M, thi2, t, vt.copy(), z2, i, ome2, r)
        except (joint.TooHard, NoProgress) as e:
            if isinstance(e, Alarm):
                raise
            skip(rec, job, e)
            continue
        changed = [bool(a != b) for a, b in zip(thi, thi2)]
        rec.count('runs')
        rec.count('steps', job['steps'])
        rec.count('sim_time', float(horizon) * job['steps'])
        rec.count('probe:parameters moved', int(any(changed)))
        moved = sum(a.tight_z != b.tight_z for a, b in zip(z, z2))
        rec.count('probe:path stretches replaced', moved)
        rec.count('probe:escape armed', int(job['portkey'] > .1))
        rec.state(job['portkey'], job['precoin'], job['prior'], job['batch'], job['data'], job['n_obs'], changed, moved)
        rec.log(i, float(thi2[0]), float(thi2[1]), moved)
        u0, u1 = ndtr((np.log(thi) - mu) / sd), ndtr((np.log(thi2) - mu) / sd)
        s1 = ndtr(np.log(np.mean(np.diff(vt) ** 2 / np.diff(t))) - 2 * mu[1])
        s2 = np.tanh(np.sum(vt[:-1] * np.diff(vt)))
        for k in (0, 1):
            rec.acc_pit('prior thi%d' % k, u1[k], 4)
            for nm, f in (('u', lambda u: u[k]), ('uu', lambda u: u[k] ** 2), ('cos', lambda u: np.cos(2 * np.pi * u[k])),
                          ('u.s1', lambda u: u[k] * (s1 - .5)), ('u.s2', lambda u: u[k] * s2)):
                rec.acc('paired thi%d %s' % (k, nm), f(u1) - f(u0))
        rec.acc('paired u0u1', u1[0] * u1[1] - u0[0] * u0[1])
        w0, w1 = data_resid(thi, t, vt), data_resid(thi2, t, vt)
        for nm, f in (('mid', lambda w: np.mean(np.exp(-w ** 2))), ('tail', lambda w: np.mean(w ** 2 > 1.5)),
                      ('sign', lambda w: np.mean(np.tanh(w) * np.sign(vt[:-1])))):
            rec.acc('paired data ' + nm, f(w1) - f(w0))
        j = int(r.integers(len(t) - 1))
        g = lambda z_: np.tanh(abs(z_.tight_z))           # noqa: E731
        h = lambda z_: np.tanh(abs(z_.loose_z))           # noqa: E731
        rec.acc('paired extremum', g(z2[j]) - g(z[j]))
        rec.acc('paired outer', h(z2[j]) - h(z[j]))
        rec.acc('paired extremum.u', g(z2[j]) * u1[0] - g(z[j]) * u0[0])
        # the conditioned path after the update, in closed form given parameters and data
        dt = t[j + 1] - t[j]
        ts = np.sort(r.uniform(.02, .98, 2)) * dt
        _, x = S.interpolate_seed(z2[j], ts, *M.gen_normops(thi2, t, vt)[j], ome)
        bet, sig = models.ou_coef('ito', thi2)
        u = np.array(joint.bridge_pit(bet, sig, 0, dt, vt[j], vt[j + 1], ts, x * thi2[1]))
        rec.acc_pit('path', u, 4)
        rec.acc('path u.thi0', (u[0] - .5) * (u1[0] - .5))
        rec.acc('path |u|.thi0', (abs(u[0] - .5) - .25) * (u1[0] - .5))
        rec.acc('path product', (u[0] - .5) * (u[1] - .5))


def bridge(job, rec):
    from ctbayes.ea3lib import seed as S
    M = mod_of(job['prior'])
    mu, sd, horizon = [np.array(x) for x in PRIORS[job['prior']]]
    r = rng(job['seed'])
    ome = np.random.Generator(np.random.PCG64(derive(job['seed'], 'ome')))
    streams = []
    for k in range(3):
        thi = joint.prior_thi(r, mu, sd)
        thi[0] *= 1.6
        t = np.array([0, r.uniform(.4, .9)])
        vt = r.uniform(.2, 1.3, 2) / np.sqrt(thi[0]) * thi[1] * r.choice([-1, 1], p=[.3, .7])
        ops = M.gen_normops(thi, t, vt)[0]
        streams.append((thi, t, vt, ops, S.sample_bridge(M.bounds_x, *ops, M.eval_disc(thi), M.eval_bounds_disc(thi), ome)))
    last = {}
    for i in range(job['n']):
        k = int(r.integers(3))
        thi, t, vt, ops, it = streams[k]
        z = next(it)
        rec.count('runs')
        rec.count('steps')
        rec.count('fault:stream switched on shared generator')
        ts = np.sort(r.uniform(.02, .98, 3)) * t[1]
        _, x = S.interpolate_seed(z, ts, *ops, ome)
        bet, sig = models.ou_coef('ito', thi)
        u = np.array(joint.bridge_pit(bet, sig, 0, t[1], vt[0], vt[1], ts, x * thi[1]))
        rec.acc_pit('bridge', u, 8)
        rec.acc('bridge product', (u[0] - .5) * (u[1] - .5))
        if k in last:
            rec.acc('bridge successive', (u[0] - .5) * (last[k] - .5))
        last[k] = u[0]
        rec.state(job['prior'], k, len(z.s))
        rec.log(i, k, float(x[0]))


def occupation(job, rec):
    """Repeated path updates for a user-supplied drift functional that only charges time above zero.

    Given the parameters there is nothing to adapt, so any number of updates must keep the law."""
    from joblib import Parallel
    from ctbayes.ea3lib import seed as S
    from ctbayes.ito import mcmc
    M = models.module('ito')
    c, thi, t, vt = 4.0, np.array([1., 1.]), np.array([0., 1.]), np.zeros(2)
    mod = mcmc.Model(t, vt, M.bounds_thi, M.eval_log_prior, M.sample_aug, M.gen_normops, M.eval_biased_log_lik,
                     lambda thi_: (lambda x: c * (np.asarray(x) > 0)), lambda thi_: (lambda lo, hi: (0., 0., c)), None)
    ctrl = mcmc.Controls(pr_portkey=job['portkey'], ea_batch_size=job['batch'])
    ops = M.gen_normops(thi, t, vt)[0]
    ts = np.array([.2, .4, .6, .8])
    for i in range(job['n']):
        r = rng(job['seed'], i)
        ome = np.random.Generator(np.random.PCG64(derive(job['seed'], i, 'ome')))
        world.Scheduler(seed=derive(job['seed'], i), serialize=False, rec=rec).install()
        while True:             # thinning at unit height, by hand
            z = S.sample_raw_seed(M.bounds_x, *ops, ome)
            s = np.sort(r.uniform(size=r.poisson(c)))
            x = np.array([])
            if len(s):
                z, x = S.interpolate_seed(z, s, *ops, ome)
            if np.all(x <= 0):
                break
        z1 = [z]
        with Parallel(1, 'loky') as pool:
            for _ in range(job['steps']):
                z1 = mcmc.update_sde(thi, z1, mod, ctrl, ome, pool)
        _, x0 = S.interpolate_seed(z, ts, *ops, ome)
        _, x1 = S.interpolate_seed(z1[0], ts, *ops, ome)
        rec.count('runs')
        rec.count('steps', job['steps'])
        rec.count('sim_time', float(job['steps']))
        rec.count('probe:escape armed', int(job['portkey'] > 0))
        rec.state('occ', job['portkey'], int(np.sum(x1 > 0)), min(len(z1[0].s), 30))
        rec.log(i, float(x1[0]), len(z1[0].s))
        rec.acc('above zero', np.mean(x1 > 0) - np.mean(x0 > 0))
        rec.acc('middle', np.tanh(3 * x1[1]) - np.tanh(3 * x0[1]))
        rec.acc('spread', np.tanh(np.sum(x1 ** 2)) - np.tanh(np.sum(x0 ** 2)))


def shrink_law(jobs):
    j = jobs[0]
    if j['kind'] != 'step':
        return
    base = [dict(x, cores=1, sampler='fresh') for x in jobs]
    for prior in ('slow', 'fast', 'shipped'):
        for n_obs in (2, 3):
            yield [dict(x, prior=prior, n_obs=n_obs, data='even', batch=2) for x in base]
