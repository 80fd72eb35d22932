"""C16: the log-concave sampler is exact whatever its hull history."""
import numpy as np
from scipy import stats

from dst import world
from dst.core import Violation, derive, drop_each, rng

INFO = dict(
    level='exploration',
    rule='a run interleaves several log-concave samplers and foreign draws on one generator under a seeded consumer '
         '(short and long streams, abandoned streams, failing targets), checks every draw for bounds, the number of '
         'draws and the owner of errors, and accumulates probability transforms of the draws by age of the hull and '
         'products of successive draws; states = (target, starting points, cap, stream length, fault) classes',
    real='ctbayes.misc.ars',
    stubs='targets are simulated callbacks (recorded, some failing); scipy.optimize runs for real',
    assumptions=['sampled evidence: two-stage z tests', 'starting points bracket the mode strictly on unbounded sides'])

FAMILIES = ['normal', 'truncnorm', 'half normal', 'linear', 'laplace', 'gamma', 'beta', 'logistic', 'steep']


def target(family, r):
    """log density, slope, bounds and the exact distribution."""
    s = float(10 ** r.uniform(-3, 4)) if r.random() < .5 else 1.0
    m = float(s * r.uniform(-40, 40)) if r.random() < .7 else 0.0
    c = float(r.choice([0., 0., 3., -700., 1e4]))           # densities need not be normalized
    inf = np.inf
    if family in ('normal', 'truncnorm', 'half normal'):
        def f(x): return c - np.square((x - m) / s) / 2
        def df(x): return -(x - m) / s ** 2
        if family == 'normal':
            lo, hi = -inf, inf
        elif family == 'half normal':
            a = m + s * float(r.choice([0., 0., -2., .5, 3., -30.]))
            lo, hi = (a, inf) if r.random() < .5 else (-inf, 2 * m - a)
        else:
            a, w = float(r.choice([-3., -1., 0., 2., -.5])), float(r.choice([.01, .5, 1., 3., 20.]))
            lo, hi = m + s * a, m + s * (a + w)
        d = stats.truncnorm((lo - m) / s, (hi - m) / s, m, s)
    elif family == 'linear':
        k = float(r.choice([-1., 1., 0., -5., 5.])) / s
        lo, w = m, s * float(r.choice([1., .2, 5.]))
        hi = lo + w
        if k < 0 and r.random() < .4:
            hi = inf
        elif k > 0 and r.random() < .4:
            lo, hi = -inf, m

        def f(x): return c + k * (x - m)
        def df(x): return k + 0 * x
        if k == 0:
            d = stats.uniform(lo, hi - lo)
        elif np.isinf(hi):
            d = stats.expon(lo, -1 / k)
        elif np.isinf(lo):
            d = Mirror(stats.expon(-hi, 1 / k))
        elif k < 0:
            d = stats.truncexpon(-k * w, lo, -1 / k)
        else:
            d = Mirror(stats.truncexpon(k * w, -hi, 1 / k))
    elif family == 'laplace':
        def f(x): return c - np.abs(x - m) / s
        def df(x): return -np.sign(x - m) / s
        lo, hi, d = -inf, inf, stats.laplace(m, s)
    elif family == 'gamma':
        k = float(r.choice([1.5, 2., 5., 40., 400.]))
        d = stats.gamma(k, m, s)
        lo, hi = m, inf

        def f(x): return c + (k - 1) * np.log((x - m) / s) - (x - m) / s
        def df(x): return (k - 1) / (x - m) - 1 / s
        if r.random() < .4:
            f, df, lo, hi, d = (lambda x, g=f: g(-x)), (lambda x, g=df: -g(-x)), -inf, -m, Mirror(d)
    elif family == 'beta':
        a, b = [float(r.choice([1.5, 2., 4., 30.])) for _ in range(2)]

        def f(x): return c + (a - 1) * np.log((x - m) / s) + (b - 1) * np.log((m + s - x) / s)
        def df(x): return (a - 1) / (x - m) - (b - 1) / (m + s - x)
        lo, hi, d = m, m + s, stats.beta(a, b, m, s)
    else:
        if family == 'logistic':
            def f(x): return c - (x - m) / s - 2 * np.logaddexp(0, -(x - m) / s)
            def df(x): return -np.tanh((x - m) / s / 2) / s
            d = stats.logistic(m, s)
        else:
            def f(x): return c - (x - m) / s - np.exp(-(x - m) / s)
            def df(x): return (np.exp(-(x - m) / s) - 1) / s
            d = stats.gumbel_r(m, s)
        lo, hi = -inf, inf
    return f, df, lo, hi, d


class Mirror:
    def __init__(self, d):
        self.d = d

    def cdf(self, x):
        return self.d.sf(-np.asarray(x))

    def ppf(self, q):
        return -self.d.isf(q)


def starts(r, df, lo, hi, d):
    """Starting points bracketing the mode, some whole numbers, some on the mode itself."""
    for _ in range(20):
        k = int(r.choice([2, 2, 3, 5, 9]))
        x = np.array([d.ppf(q) for q in r.uniform(.005, .995, k)])
        if r.random() < .4:
            w = np.round(x)
            if np.max(np.abs(w)) < 1e6 and np.all((d.ppf(.001) < w) & (w < d.ppf(.999))):
                x = w.astype(int) if r.random() < .7 else w
        g = df(np.sort(x))
        at_lo, at_hi = np.isfinite(lo) and df(d.ppf(1e-6)) <= 0, np.isfinite(hi) and df(d.ppf(1 - 1e-6)) >= 0
        scale = d.ppf(.75) - d.ppf(.25)     # nearly level ends would make the first proposals useless
        if len(np.unique(x)) == k and (at_lo or g[0] * scale > .3) and (at_hi or g[-1] * scale < -.3):
            return x
    return None


class Failing:
    """A target which fails at its k-th evaluation and records where it was looked at."""

    def __init__(self, f, at=None):
        self.f, self.at, self.n, self.lo, self.hi = f, at, 0, np.inf, -np.inf

    def __call__(self, x):
        self.n += 1
        self.lo, self.hi = min(self.lo, np.min(x)), max(self.hi, np.max(x))
        if self.at is not None and self.n >= self.at:
            raise world.SimCrash('target failed')
        return self.f(x)


class Stream:
    def __init__(self, r, family, ome, ars):
        f, df, self.lo, self.hi, self.d = target(family, r)
        init = starts(r, df, self.lo, self.hi, self.d) if r.random() < .6 else None
        cap = 100
        if init is not None:
            cap = int(r.choice([len(init), len(init) + 1, 8, 100])) if r.random() < .7 else 100
        elif r.random() < .4:
            cap = int(r.choice([20, 35]))
        if family == 'steep':
            cap = 100               # double exponential tails are approached one support point at a time
        self.want = r.choice([0, 1, 2, 3, 8, 40, 150], p=[.05, .2, .2, .2, .2, .1, .05]).item()
        self.endless = bool(r.random() < .3)
        self.f = Failing(f, int(r.integers(1, 12)) if init is not None and r.random() < .12 else None)
        self.key = (family, None if init is None else len(init), cap, self.want, self.endless, self.f.at is not None)
        kw = {} if cap == 100 and r.random() < .5 else {'max_points': cap}
        if not self.endless:
            kw['max_draws'] = self.want
        if not (np.isinf(self.lo) and np.isinf(self.hi) and r.random() < .5):
            kw.update(lb=self.lo, ub=self.hi)
        if init is not None:
            kw['init'] = init
        self.it = ars.sample(self.f, df, ome=ome, **kw)
        self.x = []


def plan(tier, seed):
    jobs = []
    reps, n = (60, 45) if tier == 'quick' else (400, 150)
    for fam in FAMILIES:
        for k in range(reps):
            jobs.append({'group': fam, 'seed': derive('C16', seed, fam, k), 'n': n})
    rng('C16order', seed).shuffle(jobs)
    return jobs


def run(job, rec):
    with np.errstate(all='ignore'):
        for i in (job['ixs'] if 'ixs' in job else range(job['n'])):
            episode(job, i, rec)


def episode(job, i, rec):
    from ctbayes.misc import ars
    r = rng(job['seed'], i)
    ctl = world.Control(rec, max_draws=60000)
    ome = world.gen(derive(job['seed'], i, 'ome'), ctl)
    streams = [Stream(r, job['group'] if k == 0 else FAMILIES[int(r.integers(len(FAMILIES)))], ome, ars)
               for k in range(int(r.integers(1, 4)))]
    live = list(streams)
    foreign = bool(r.random() < .4)
    order = []
    while live:
        s = live[int(r.integers(len(live)))]
        for _ in range(int(r.choice([1, 1, 2, 5]))):
            where = 'stream %s after %d draws' % (s.key, len(s.x))
            if s.endless and len(s.x) == s.want:
                live.remove(s)              # abandoned by its consumer
                break
            try:
                x = next(s.it)
            except StopIteration:
                if len(s.x) != s.want:
                    raise Violation('ended-early', where)
                live.remove(s)
                break
            except world.SimCrash:
                rec.count('fault:target failed')
                if s.f.n != s.f.at:
                    raise Violation('target-error-late', where)
                live.remove(s)
                break
            if len(s.x) >= s.want:
                raise Violation('too-many-draws', where)
            if np.ndim(x) != 0 or not np.isfinite(x):
                raise Violation('not-a-number', where + ': %r' % (x,))
            if not s.lo <= x <= s.hi:
                raise Violation('out-of-bounds', where + ': %r not in [%r, %r]' % (x, s.lo, s.hi))
            s.x.append(float(x))
            order.append(s)
        if foreign:
            ome.uniform(size=int(r.integers(1, 4)))
            rec.count('probe:foreign draws in between')
        if len(streams) > 1:
            rec.count('probe:switches between streams')
    rec.count('runs')
    us = []
    for s in streams:
        if s.f.lo < s.lo or s.f.hi > s.hi:
            raise Violation('target-evaluated-out-of-bounds', 'stream %s: [%r, %r]' % (s.key, s.f.lo, s.f.hi))
        rec.state(*s.key)
        rec.log(i, s.key, len(s.x), float(np.sum(s.x)))
        us.append(np.asarray(s.d.cdf(np.array(s.x)), float) if s.x else np.array([]))
        rec.count('probe:draws', len(s.x))
    u = us[0]                   # the family of the group
    if streams[0].f.at is None and len(u):
        kind = 'short' if streams[0].want <= 3 else 'long'
        rec.acc_pit('u of %s streams' % kind, u, 10)
        rec.acc_pit('first', u[:1])
        rec.acc_pit('second', u[1:2])
        if streams[0].key[2] <= 9:
            rec.acc_pit('capped hull', u, 6)
        c = u - .5
        rec.acc('successive', c[1:] * c[:-1], 1 / 144)
        rec.acc('successive squares', (c[1:] ** 2 - 1 / 12) * (c[:-1] ** 2 - 1 / 12), 1 / 180 ** 2)
    if len(us) > 1 and streams[1].f.at is None:
        k = min(len(u), len(us[1]))
        rec.acc('between streams', (u[:k] - .5) * (us[1][:k] - .5), 1 / 144)


def shrink(job):
    yield from ([dict(job, ixs=[i]) for i in range(job['n'])] if 'ixs' not in job else [])
