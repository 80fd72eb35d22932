"""C14: exact simulation of diffusions follows the transition law however consumed."""
import numpy as np
from scipy.special import ndtr
from scipy.stats import ncx2

from dst import joint, models, world
from dst.core import NoProgress, Violation, derive, rng, skip

INFO = dict(
    level='exploration',
    rule='a run interleaves several path streams and foreign draws on one generator under a seeded consumer (some '
         'streams abandoned, some crashed at a random draw), checks shapes, end values and state bounds of every '
         'path, and accumulates sequential probability transforms of the values at the query times and products '
         'over time, over successive draws and between streams; states = (model, conditioning, horizon, query '
         'pattern, position in stream) classes',
    real='ctbayes.ito.static sample_sde, ito.models.ou, ito.models.cir, ea3lib, sdelib, misc.ars, mjplib.sample_ppp',
    stubs='two diffusions with closed-form laws on a half line and an interval are user-supplied models',
    assumptions=['sampled evidence: two-stage z tests', 'query times sorted and distinct',
                 'square-root diffusion away from zero, where the method has finite expected cost'])


class OU:
    slow = 1
    settings = [((1., 1.), .8, 1.), ((2.5, .6), 1., .5), ((.4, 2.), .5, -1.5), ((6., 1.), .7, .3), ((.02, 1.), .3, 0.), ((1.5, .8), 2., .2)]

    def sampler(self):
        return models.module('ito').sample_sde

    def to(self, v):
        return v

    def coef(self, thi):
        return thi

    def cdf(self, thi, v0, h, v):
        m, sd = models.ou_trans(*self.coef(thi), h, self.to(v0))
        return ndtr((self.to(v) - m) / sd)

    def draw(self, thi, v0, h, r):
        m, sd = models.ou_trans(*self.coef(thi), h, self.to(v0))
        return self.back(r.normal(m, sd))

    def back(self, x):
        return x


class Away(OU):
    """Far from the centre, where the drift functional never comes near its infimum."""
    settings = [((1., 1.), .3, 5.), ((1., .5), .4, -2.), ((2., .8), .1, 3.)]


class LogOU(OU):
    settings = [((1., 1.), .8, 1.3), ((2.5, .6), 1., .5), ((.4, 2.), .5, 3.)]

    def __init__(self):
        self.m = None

    def sampler(self):
        def wrap(n, f):
            return {'reduce': lambda thi, v: f(thi, np.log(v)), 'dereduce': lambda thi, x: np.exp(f(thi, x))}.get(n, f)
        self.m = self.m or models.assemble('ito', wrap)
        return self.m.sample_sde

    def to(self, v):
        return np.log(v)

    def back(self, x):
        return float(np.exp(x))


class CIR:
    slow = 6
    settings = [((1., 1., .6), .5, 1.), ((1., 1.5, .5), 1., 1.5), ((2., .8, .5), .4, .6), ((.5, .8, .5), .3, .25)]

    def sampler(self):
        from ctbayes.ito.models import cir
        return cir.sample_sde

    def law(self, thi, v0, h):
        k, th, sg = thi
        c = sg ** 2 * -np.expm1(-k * h) / (4 * k)
        return c, ncx2(4 * k * th / sg ** 2, v0 * np.exp(-k * h) / c)

    def cdf(self, thi, v0, h, v):
        c, d = self.law(thi, v0, h)
        return d.cdf(v / c)

    def draw(self, thi, v0, h, r):
        k, th, sg = thi
        c = sg ** 2 * -np.expm1(-k * h) / (4 * k)
        return float(c * r.noncentral_chisquare(4 * k * th / sg ** 2, v0 * np.exp(-k * h) / c))


def user_model(bounds, drift, sx, dx):
    from ctbayes.ito import static
    one = lambda thi, v: v                                  # noqa: E731
    return static.assemble_model(
        np.array([1.]), bounds, (np.array([0.]), np.array([2.])), one, one, lambda thi, v: v ** 0,
        lambda thi, x: drift(x), lambda thi, x: sx(x), lambda thi, x: dx(x),
        lambda thi: (lambda lo, hi: (PHI[bounds], PHI[bounds], PHI[bounds] + 1e-9)), None, None)[4]


PHI = {(0, np.inf): 0., (0, np.pi): -.5}


class Bessel:
    """Drift 1/x on the half line: the distance of a Brownian motion in space from the origin."""
    slow = 1
    settings = [((1.,), .5, 2.), ((1.,), .5, .5), ((1.,), 1., .3), ((1.,), .2, 1.)]

    def sampler(self):
        return user_model((0, np.inf), lambda x: 1 / x, np.log, lambda x: -1 / x ** 2)

    def cdf(self, thi, v0, h, v):
        return ncx2.cdf(v ** 2 / h, 3, v0 ** 2 / h)

    def draw(self, thi, v0, h, r):
        return float(np.linalg.norm(r.standard_normal(3) * np.sqrt(h) + [v0, 0, 0]))


class Arc:
    """Drift cot(x) on an arc: Brownian motion conditioned never to leave it."""
    slow = 1
    settings = [((1.,), .5, 1.5), ((1.,), 1., .4), ((1.,), .3, 2.7), ((1.,), 2., 1.)]

    def sampler(self):
        return user_model((0, np.pi), lambda x: 1 / np.tan(x), lambda x: np.log(np.sin(x)), lambda x: -1 / np.sin(x) ** 2)

    def cdf(self, thi, v0, h, v):
        n = np.arange(1, 3 + int(np.sqrt(80 / h)))
        m = np.maximum(n - 1, 1)
        part = np.where(n == 1, v / 2 - np.sin(2 * v) / 4, np.sin((n - 1) * v) / (2 * m) - np.sin((n + 1) * v) / (2 * (n + 1)))
        return float(np.sum(np.exp(-(n ** 2 - 1) * h / 2) * np.sin(n * v0) / np.sin(v0) * 2 / np.pi * part))

    def draw(self, thi, v0, h, r):
        u, lo, hi = r.random(), 0., np.pi
        for _ in range(45):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if self.cdf(thi, v0, h, mid) < u else (lo, mid)
        return (lo + hi) / 2


MODELS = {'ou': OU(), 'ou away': Away(), 'logged ou': LogOU(), 'square root': CIR(), 'half line': Bessel(), 'interval': Arc()}
BOUNDS = {'square root': (0, np.inf), 'half line': (0, np.inf), 'interval': (0, np.pi), 'logged ou': (0, np.inf)}
N_THI = 3


def plan(tier, seed):
    jobs = []
    reps, n = (40, 130) if tier == 'quick' else (200, 250)
    for name, M in MODELS.items():
        for mode in ('free', 'pinned'):
            for k in range(reps):
                jobs.append({'kind': 'streams', 'model': name, 'mode': mode, 'group': '%s %s' % (name, mode),
                             'n': max(20, n // M.slow), 'seed': derive('C14', seed, name, mode, k)})
    for b in range(len(CELLS)):
        for k in range(2 * reps):
            jobs.append({'kind': 'bridge', 'cell': b, 'group': 'bridge sampler %d' % b, 'n': n // 2, 'seed': derive('C14b', seed, b, k)})
    rng('C14order', seed).shuffle(jobs)
    return jobs


class Stream:
    def __init__(self, name, mode, r, ome):
        self.name, self.mode, self.M = name, mode, MODELS[name]
        self.ix = int(r.integers(len(self.M.settings)))
        thi, T, v0 = self.M.settings[self.ix]
        self.thi, self.v0 = np.array(thi), v0
        self.T = T * float(r.choice([1., 1., 1., .1, .01] if name != 'ou away' else [1., 1., 1., 1., .3]))
        self.vT = None if mode == 'free' else self.M.draw(thi, v0, self.T, r)
        k = int(r.choice([1, 2, 4]))
        kind = int(r.integers(3))
        q = np.arange(1, k + 1) / (k + 1) if kind == 0 else np.sort(r.uniform(.01, .99, k)) if kind == 1 else \
            np.cumsum(np.exp(r.uniform(-7, 0, k)))
        q = q / max(1, q[-1] * 1.02)
        self.q = self.T * q
        self.ends = [bool(r.random() < .3), bool(r.random() < .5) or k == 1]
        if self.ends[0]:
            self.q = np.append(0., self.q)
        if self.ends[1]:
            self.q = np.append(self.q, self.T)
        self.it = self.M.sampler()(self.thi, self.q, self.T, v0, self.vT, ome)
        self.taken = 0
        self.length = int(r.choice([1, 2, 5, 20])) if mode == 'free' else int(r.choice([1, 1, 2, 3]))
        self.use = int(r.integers(self.length))     # pinned streams share one end value: one draw of each is judged
        self.key = (name, mode, self.ix, round(np.log10(self.T), 1), k, kind, tuple(self.ends))

    def check(self, v):
        where = 'stream %s, draw %d: %s at %s' % (self.key, self.taken, v, self.q)
        v = np.asarray(v)
        if v.shape != self.q.shape or not np.all(np.isfinite(v)):
            raise Violation('malformed-path', where)
        lo, hi = BOUNDS.get(self.name, (-np.inf, np.inf))
        if np.any(v <= lo) or np.any(v >= hi):
            raise Violation('out-of-state-space', where)
        if self.ends[0] and abs(v[0] - self.v0) > 1e-9 * max(1, abs(self.v0)):
            raise Violation('wrong-start', where)
        if self.ends[1] and self.vT is not None and abs(v[-1] - self.vT) > 1e-9 * max(1, abs(self.vT)):
            raise Violation('wrong-end', where + ', asked for %r' % self.vT)

    def uniforms(self, v):
        """Sequential uniforms along the path, the pinned end last (it was drawn from the exact law)."""
        t, v = [0.] + list(self.q[self.q > 0]), [self.v0] + list(np.asarray(v)[self.q > 0])
        if self.vT is not None and not self.ends[1]:
            t, v = t + [self.T], v + [self.vT]
        return np.clip([self.M.cdf(self.thi, v[i], t[i + 1] - t[i], v[i + 1]) for i in range(len(t) - 1)], 0, 1)


def run(job, rec):
    with np.errstate(all='ignore'):
        {'streams': streams, 'bridge': bridge}[job['kind']](job, rec)


def streams(job, rec):
    r = rng(job['seed'])
    ctl = world.Control(rec)
    ome = world.gen(derive(job['seed'], 'ome'), ctl, ['PCG64', 'MT19937', 'Philox'][int(r.integers(3))])
    live, last, done = [], {}, 0
    while done < job['n']:
        while len(live) < 3:
            own = not any(s.name == job['model'] for s in live) or r.random() < .6
            other = 'ou' if job['model'][:2] != 'ou' else 'half line'
            live.append(Stream(*((job['model'], job['mode']) if own else (other, 'free')), r, ome))
        s = live[int(r.integers(3))]
        if r.random() < .2:
            ome.normal(size=int(r.integers(1, 4)))
            rec.count('probe:foreign draws in between')
        done += s.name == job['model']
        crash = r.random() < .03
        ctl.max_draws = ctl.draws + 60000
        ctl.crash_at = ctl.draws + int(r.integers(1, 40)) if crash else None
        try:
            v = next(s.it)
        except world.SimCrash:
            ctl.crash_at = None
            live.remove(s)
            continue
        except StopIteration:
            raise Violation('stream-ended', str(s.key))
        except NoProgress as e:
            if type(e) is not NoProgress:
                raise
            skip(rec, job, e, .03)
            live.remove(s)
            continue
        ctl.crash_at = None
        s.check(v)
        rec.count('runs')
        rec.count('sim_time', s.T)
        rec.state(*s.key, min(s.taken, 3))
        rec.log(s.key, s.taken, [float(x) for x in v])
        if s.name == job['model'] and s.mode == job['mode'] and (s.mode == 'free' or s.taken == s.use):
            u = s.uniforms(v)
            rec.acc_pit('first step', u[:1], 8)
            rec.acc_pit('last step', u[-1:], 8)
            rec.acc_pit('steps', u, 8)
            if s.taken == 0:
                rec.acc_pit('first draw', u, 4)
            if np.max(np.diff(np.append(0, s.q))) > .2 * s.T and s.T > .1:
                rec.acc_pit('long steps', u[np.diff(np.append(0, s.q[s.q > 0]))[:len(u)].argmax()], 8)
            c = u - .5
            rec.acc('over time', c[1:] * c[:-1], 1 / 144)
            rec.acc('over time, squares', (c[1:] ** 2 - 1 / 12) * (c[:-1] ** 2 - 1 / 12), 1 / 180 ** 2)
            if s.mode == 'free':
                if id(s) in last:
                    p = last[id(s)]
                    rec.acc('successive', p[0] * c[0], 1 / 144)
                    rec.acc('successive ends', p[-1] * c[-1], 1 / 144)
                last[id(s)] = c
            if 'any' in last and last['any'][0] is not s:
                rec.acc('between streams', last['any'][1][0] * c[0], 1 / 144)
            last['any'] = (s, c)
        s.taken += 1
        if s.taken >= s.length:
            live.remove(s)
            last.pop(id(s), None)
            rec.count('probe:streams abandoned')


# ends in stationary standard deviations * sqrt(2), spread of the horizon in mean-reversion times
CELLS = [((1.6, 1.6), (1.3, 2.)), ((-1.1, .4), (1.5, 2.5)), ((1.4, 1.2), (.8, 1.6))]


def bridge(job, rec):
    """The exact bridge sampler of the seed library on Ornstein-Uhlenbeck bridges."""
    from ctbayes.ea3lib import seed as S
    M = models.module('ito')
    r = rng(job['seed'])
    ctl = world.Control(rec)
    ome = world.gen(derive(job['seed'], 'ome'), ctl)
    made, last = [], {}
    for k in range(3):
        bet, sg = float(r.uniform(.8, 3.)), float(r.uniform(.5, 2.))
        thi = np.array([bet, sg])
        ends, hor = CELLS[job['cell']]
        T = float(r.uniform(*hor)) / bet
        x = np.array(ends) * r.uniform(.95, 1.05, 2) * r.choice([-1, 1]) / np.sqrt(bet)
        vt, t = x * sg, np.array([0., T])
        ops = M.gen_normops(thi, t, vt)[0]
        made.append((thi, T, vt, ops, S.sample_bridge(M.bounds_x, *ops, M.eval_disc(thi), M.eval_bounds_disc(thi), ome)))
    for i in range(job['n']):
        k = int(r.integers(3))
        thi, T, vt, ops, it = made[k]
        ctl.max_draws = ctl.draws + 600000
        try:
            z = next(it)
        except NoProgress as e:
            if type(e) is not NoProgress:
                raise
            skip(rec, job, e, .03)
            made[k] = made[k][:4] + (S.sample_bridge(M.bounds_x, *ops, M.eval_disc(thi), M.eval_bounds_disc(thi), ome),)
            last.pop(k, None)
            continue
        ts = np.array([.2, .5, .8]) * T if r.random() < .5 else np.array([r.uniform(.02, .48), .5, r.uniform(.52, .98)]) * T
        _, x = S.interpolate_seed(z, ts, *ops, ome)
        u = np.array(joint.bridge_pit(thi[0], thi[1], 0, T, vt[0], vt[1], ts, x * thi[1]))
        c = u - .5
        rec.count('runs')
        rec.count('sim_time', T)
        rec.state('bridge', job['cell'], k, min(len(z.s), 20))
        rec.log(i, k, [float(y) for y in x])
        rec.acc_pit('steps', u, 8)
        rec.acc_pit('middle', u[1:2], 8)
        rec.acc('over time', c[1:] * c[:-1], 1 / 144)
        # size of the path in the middle, in standard units
        m = joint.bridge_pit(thi[0], thi[1], 0, T, vt[0], vt[1], ts[1:2], x[1:2] * thi[1])[0]
        rec.acc_pit('middle alone', m, 8)
        if k in last:
            rec.acc('successive', c[0] * last[k], 1 / 144)
        last[k] = c[0]


def shrink_law(jobs):
    for k in (5, 20, 60):
        yield jobs[:k]
