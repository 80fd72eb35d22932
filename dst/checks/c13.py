"""C13: rejection loops answer validly or raise the budget error, and errors pass through unharmed."""
import itertools

import numpy as np

from dst import core, models, world
from dst.core import Alarm, NoProgress, Violation, derive, digest, ixs, only_each, rng

INFO = dict(
    level='exploration', slow_ok=.05,
    rule='a run calls one budgeted sampler with a seeded generator under several budgets and checks the answer or the '
         'budget error against the number of attempts it may make (same seed, growing budget; callbacks counted; '
         'impossible conditions; extreme draws), or drives a chain, EM stream, path stream or log-concave sampler '
         'whose callbacks fail or always reject at a seeded call; states = (sampler, budget, attempts needed, outcome)',
    real='ctbayes.misc, ctbayes.ea3lib, ctbayes.sdelib, ctbayes.ito, ctbayes.switching',
    stubs='model callbacks wrapped by fault injectors; joblib process pool replaced by seeded virtual workers',
    assumptions=['attempts are independent repetitions of one proposal (law jobs)',
                 'callbacks do not raise StopIteration'])

OPS = ['skeleton', 'bridge', 'layerbr', 'layerbr_edge', 'layerbr_min', 'layer', 'edges', 'twocoin', 'twocoin_joint']
ZERO = ('skeleton', 'bridge', 'layerbr_edge', 'layerbr_min', 'layer', 'twocoin', 'twocoin_joint')      # budget 0 allowed
STREAMS = ['ito', 'ou', 'ou2', 'ou3', 'ito:em', 'ou:em', 'sde', 'ars']


def plan(tier, seed):
    q = tier == 'quick'
    jobs = []
    for k in range(160 if q else 3000):
        jobs.append({'kind': 'budget', 'op': OPS[k % len(OPS)], 'n': 20, 'seed': derive('C13b', seed, k),
                     'extreme': float([0, 0, .05, .4][k // len(OPS) % 4])})
    for k in range(48 if q else 600):
        jobs.append({'kind': 'impossible', 'op': OPS[k % len(OPS)], 'n': 12, 'seed': derive('C13i', seed, k)})
    for op in OPS:
        for k in range(8 if q else 40):
            jobs.append({'kind': 'law', 'group': 'attempts ' + op, 'op': op, 'n': 150 if q else 400,
                         'seed': derive('C13l', seed, op, k)})
    for k in range(16 if q else 200):
        jobs.append({'kind': 'decide', 'n': 12, 'seed': derive('C13d', seed, k)})
    for k in range(240 if q else 4000):
        r = rng('C13s', seed, k)
        jobs.append({'kind': 'callback', 'stream': STREAMS[k % len(STREAMS)], 'seed': derive('C13s', seed, k),
                     'at': int(np.exp(r.uniform(0, 6.2))), 'exc': int(r.integers(len(EXCS))),
                     'cores': int(r.choice([1, 1, 2])), 'precoin': bool(r.random() < .5)})
    for k in range(60 if q else 600):
        jobs.append({'kind': 'reject', 'stream': ['ito', 'ou', 'ou2', 'ou3'][k % 4], 'what': ['prior', 'bounds', 'both'][k // 4 % 3],
                     'seed': derive('C13r', seed, k), 'precoin': bool(k % 2)})
    rng('C13order', seed).shuffle(jobs)
    return jobs


class Custom(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)
        self.a, self.b = a, b


class Stop(BaseException):
    pass


def _budget():
    from ctbayes.misc.exceptions import BudgetConstraintError
    return BudgetConstraintError('raised by a callback')


EXCS = [lambda: Custom('x', 3), lambda: ValueError('callback'), lambda: AssertionError('callback'), lambda: Stop('killed'),
        lambda: FloatingPointError('callback'), lambda: IndexError('callback'), lambda: KeyError('callback'), _budget,
        lambda: ZeroDivisionError('callback'), lambda: MemoryError('callback'), lambda: TypeError('callback')]


# ------------------------------------------------------------------- budgeted samplers

class Op:
    """One budgeted call with fixed arguments: `go(budget, ome)` -> plain answer; `check(answer)`.

    `hard` makes acceptance impossible; `self.attempts` counts attempts where the arguments can see them."""

    def __init__(self, name, r, hard=False, tough=False):
        self.name, self.hard, self.attempts, self.exact, self.plain = name, hard, None, False, True
        getattr(self, '_' + name)(r, hard, tough)

    def bad(self, what):
        raise Violation('invalid-answer', '%s: %s' % (self.name, what))

    # exact path skeletons by rejection
    def _skeleton(self, r, hard, tough):
        from ctbayes.ea3lib import skeleton as K
        T, x0 = float(np.exp(r.uniform(-1, .7))), float(r.normal())
        c = float(r.uniform(.3, 1)) / T
        kind = int(r.integers(3))
        box = (-np.inf, np.inf)
        if kind == 1:
            box = (x0 - np.sqrt(T) * r.uniform(.5, 2), np.inf)
            self.plain = False      # layers crowd at a bound: rare draws meet the spacing of floating point numbers

        def ends():
            while True:
                self.attempts += 1
                x = x0 + np.sqrt(T) * float(er.normal())
                self.ends = max(x, box[0] + .1 * np.sqrt(T))
                yield self.ends
        top = float(r.choice([np.inf, 1e4, 1e12])) if hard else None

        def disc(x):
            return np.full(np.shape(x), np.inf if hard else c) * (1 if hard else np.minimum(np.square(x), 4))

        def bounds(lo, hi):
            return 0., 0., top if hard else float(c * min(max(lo * lo, hi * hi), 4)) + 1e-9

        def go(m, ome):
            nonlocal er
            er, self.attempts = rng(es), 0
            kw = {} if m is None else {'max_props': m}
            p = next(K.sample_skeleton(T, x0, box, ends(), disc, bounds, ome, **kw))
            lo, hi = min(p.tight_x, p.loose_x), max(p.tight_x, p.loose_x)
            if p.t[0] != 0 or p.t[-1] != T or abs(p.x[0] - x0) > 1e-9 or abs(p.x[-1] - self.ends) > 1e-9:
                self.bad('ends %r..%r at %r..%r' % (p.x[0], p.x[-1], p.t[0], p.t[-1]))
            if np.any(p.x < lo - 1e-9) or np.any(p.x > hi + 1e-9) or lo < box[0] - 1e-9:
                self.bad('values out of bounds')
            return [p.t, p.x, p.tight_x, p.loose_x]
        er, es = None, int(r.integers(1 << 40))
        self.go, self.exact = go, True

    # exact bridges by rejection
    def _bridge(self, r, hard, tough):
        from ctbayes.ea3lib import seed as S
        M = models.module('ito')
        thi = np.exp(np.clip(r.normal(size=2), -1, 1) * .3)
        T = float(np.exp(r.uniform(-1, .5)))
        v = np.clip(r.normal(size=2), -1.5, 1.5) * (1.2 if tough else 1)
        ops = M.gen_normops(thi, np.array([0., T]), v)[0]
        kind = int(r.integers(3))

        def disc(x):
            return np.full(np.shape(x), np.inf) if hard and kind == 1 else M.eval_disc(thi)(x)

        def bounds(lo, hi):
            self.calls += 1
            a, b, c = M.eval_bounds_disc(thi)(lo, hi)
            if hard:
                return [(a, b, np.inf), (a, b, b + 3e4), (a, b + 1e6, c + 1e6)][kind]
            return a, b, c

        def go(m, ome):
            self.calls = 0
            kw = {} if m is None else {'max_props': m}
            z = next(S.sample_bridge((-np.inf, np.inf), *ops, disc, bounds, ome, **kw))
            lo, hi = min(z.tight_z, z.loose_z), max(z.tight_z, z.loose_z)
            if z.s[0] != 0 or abs(z.s[-1] - 1) > 1e-12 or abs(z.z[0]) > 1e-9 or abs(z.z[-1]) > 1e-9:
                self.bad('ends')
            if np.any(z.z < lo - 1e-9) or np.any(z.z > hi + 1e-9):
                self.bad('values out of bounds')
            return [z.s, z.z, z.tight_z, z.loose_z]
        self.go = go

    def _layerbr(self, r, hard, tough):
        from ctbayes.sdelib import paths
        T, x0, x1, s = self._ends(r)
        inf_x = min(x0, x1) - s * float(r.choice([0, .3, 1.] if x0 != x1 else [.3, 1.])) * r.uniform(.5, 1.5)
        lb = max(x0, x1) + s * r.uniform(.3, 1.2)
        ub = lb + s * r.uniform(.3, 1.5)
        if r.random() < .3 and not hard and not tough:
            lb = None
        if hard:
            lb = max(x0, x1) + 30 * s
            ub = lb + s
        t = self._times(r, T, 1)

        def go(m, ome):
            kw = {} if m is None else {'max_props': m}
            x, hit = paths.sample_layerbr(t, T, x0, x1, inf_x, ub, lb, ome, **kw)
            if len(x) != len(t) or np.any(x < inf_x - 1e-9) or np.any(x > ub + 1e-9):
                self.bad('values %s not within %g..%g' % (x, inf_x, ub))
            self._hits(x, hit, lb)
            if lb is not None and not any(hit):
                self.bad('far level never reached')
            return [x, None if hit is None else list(map(bool, hit))]
        self.go = go

    def _layerbr_edge(self, r, hard, tough):
        from ctbayes.sdelib import paths
        T, _, _, s = self._ends(r)
        x1 = s * r.uniform(.2, 1)
        ub = x1 + s * (r.uniform(.3, .8) if tough else r.uniform(.4, 2.5))
        if hard:
            ub = x1 * (1 + 1e-7)
        lb = float(r.uniform(.3, 1)) * ub if r.random() < .6 else None
        t = self._times(r, T, int(hard))

        def go(m, ome):
            kw = {} if m is None else {'max_props': m}
            x, hit = paths.propose_layerbr_edge(t, T, x1, ub, lb, ome, **kw)
            if len(x) != len(t) or np.any(x < -1e-12) or np.any(x > ub + 1e-9):
                self.bad('values %s not within 0..%g' % (x, ub))
            if lb is not None:
                self._hits(x, hit, lb)
            return [x, list(map(bool, hit))]
        self.go = go

    def _layerbr_min(self, r, hard, tough):
        from ctbayes.sdelib import hitting
        T, x0, x1, s = self._ends(r)
        ub = max(x0, x1) + s * (r.uniform(.1, .4) if tough else r.uniform(.2, 1.5))
        lo = min(x0, x1) - s * r.uniform(.5, 2) if r.random() < .6 else None
        hi = None if lo is None or r.random() < .5 else (lo + min(x0, x1)) / 2
        if hard:
            ub = max(x0, x1)

        def go(m, ome):
            kw = {} if m is None else {'max_props': m}
            t, x = hitting.sample_layerbr_min(T, x0, x1, ub, lo, hi, ome, **kw)
            if not 0 < t < T or not (-np.inf if lo is None else lo) - 1e-9 <= x <= min(x0, x1) + 1e-9 or (
                    hi is not None and x > hi + 1e-9):
                self.bad('minimum %r at %r' % (x, t))
            return [float(t), float(x)]
        self.go = go

    def _layer(self, r, hard, tough):
        from ctbayes.sdelib import layers
        T, x0, x1, s = self._ends(r)
        w = r.uniform(.45, .7, 2) if tough else r.uniform(.5, 2, 2)
        lo, hi = min(x0, x1) - s * w[0], max(x0, x1) + s * w[1]
        if hard:
            lo, hi = min(x0, x1) - 1e-3 * s, max(x0, x1) + 1e-3 * s

        def go(m, ome):
            kw = {} if m is None else {'max_props': m}
            k = layers.sample_layer(T, x0, x1, lo, hi, ome, **kw)
            if int(k) != k or k < 1:
                self.bad('layer %r' % k)
            return [int(k)]
        self.go = go

    def _edges(self, r, hard, tough):
        from ctbayes.sdelib import layers
        T, x0, x1, s = self._ends(r)
        d = np.cumsum(r.uniform(.2, 1, 2)) * s
        lo, hi = (min(x0, x1) - d[1], min(x0, x1) - d[0]), (max(x0, x1) + d[0], max(x0, x1) + d[1])
        if tough:
            lo, hi = (min(x0, x1) - 3 * s, min(x0, x1) - .01 * s), (max(x0, x1) + .01 * s, max(x0, x1) + 6 * s)

        def go(m, ome):
            kw = {} if m is None else {'max_props': m}
            t, x, far, out, hit = layers.sample_edges(T, x0, x1, lo, hi, ome, **kw)
            if not 0 < t < T or not lo[0] - 1e-9 <= x <= lo[1] + 1e-9 or (far, out) != hi or (hit is not None and len(hit) != 2):
                self.bad('edges %r' % ((t, x, far, out, hit),))
            return [float(t), float(x), far, out, None if hit is None else list(map(bool, hit))]
        self.go = go

    def _twocoin(self, r, hard, tough, joint=False):
        from ctbayes.misc import bfactories as F
        p = np.zeros(2) if hard else r.uniform(.02, .4, 2)
        w = r.normal(size=2)
        s = int(r.integers(1 << 40))

        def go(m, ome):
            cr, self.attempts = rng(s), 0

            def flip(own):
                self.attempts += 1
                return bool(cr.random() < p[0 if own else 1]), self.attempts

            def one(own):
                while True:
                    yield flip(own)

            def both():
                own = yield None
                while True:
                    own = yield flip(own)
            kw = {} if m is None else {'max_props': m}
            if joint:
                out = F.sample_twocoin_joint(*w, both(), 0, ome, **kw)
            else:
                out = F.sample_twocoin(*w, one(True), one(False), 0, None, ome, **kw)
            if out[2] != self.attempts:
                self.bad('returned flip %r of %d' % (out[2], self.attempts))
            return [bool(out[0]), bool(out[1]), out[2]]
        self.go, self.exact = go, True

    def _twocoin_joint(self, r, hard, tough):
        self._twocoin(r, hard, tough, True)

    def _ends(self, r):
        T = float(np.exp(r.uniform(-2, 2)))
        s = np.sqrt(T)
        x0 = float(r.normal())
        return T, x0, x0 + (0 if r.random() < .3 else s * float(r.normal()) * .7), s

    def _times(self, r, T, least):
        t = np.sort(r.uniform(.02, .98, int(r.integers(least, 4)))) * T
        return t[np.append(True, np.diff(t) > 1e-3 * T)] if len(t) else t

    def _hits(self, x, hit, lb):
        if lb is None:
            return
        if len(hit) != len(x) + 1:
            self.bad('%d flags for %d stretches' % (len(hit), len(x) + 1))
        for i, v in enumerate(x):
            if v > lb + 1e-9 and not (hit[i] and hit[i + 1]):
                self.bad('value beyond the far level beside a stretch recorded as not reaching it')


def attempt(op, m, seed, rec, extreme=0, limit=400000):
    """(answer or None, attempts seen, draws)."""
    from ctbayes.misc.exceptions import BudgetConstraintError
    ctl = world.Control(rec, max_draws=limit)
    if extreme:
        ctl.extreme = (rng(seed, 'x'), extreme)
    ome = world.gen(seed, ctl)
    try:
        out = op.go(m, ome)
    except BudgetConstraintError:
        out = None
    return out, op.attempts, ctl.draws


def budget(job, rec):
    for i in ixs(job):
        r = rng(job['seed'], i)
        op = Op(job['op'], r)
        if job['extreme'] and not op.plain:
            continue
        s = derive(job['seed'], i, 'ome')
        where = '%s, budget %%s, call %d' % (op.name, i)
        try:
            full, need, draws = attempt(op, None, s, rec, job['extreme'])
        except NoProgress as e:
            if isinstance(e, Alarm) or not job['extreme']:
                raise
            rec.count('probe:too costly under extreme draws')
            continue
        if full is None:
            # the default budgets are in the thousands; these conditions are never that hard
            if not job['extreme']:
                raise Violation('budget-error-within-budget', where % 'default')
            continue
        rec.count('runs')
        last, k = -1, None
        for m in ([0] if op.name in ZERO else []) + [1, 2, 3, 4, 6, 9, 14, 25, 60, 200, 1000]:
            if m == 0 or r.random() < .6 or k is None and m > 9:
                out, n, d = attempt(op, m, s, rec, job['extreme'])
                rec.count('probe:' + ('budget error' if out is None else 'answer within budget'))
                if op.exact and n > m:
                    raise Violation('too-many-attempts', where % m + ': %d attempts' % n)
                if out is None:
                    if k is not None:
                        raise Violation('budget-error-within-budget', where % m + ', answered with budget %d' % k)
                    if op.exact and n != m:
                        raise Violation('budget-error-early', where % m + ' after %d attempts' % n)
                    if op.exact and need <= m:
                        raise Violation('budget-error-within-budget', where % m + ', answer takes %d attempts' % need)
                    if d <= last if m else d:
                        raise Violation('attempts-not-made' if m else 'attempt-without-budget', where % m + ': %d draws' % d)
                    last = d
                else:
                    if m == 0:
                        raise Violation('answer-without-budget', where % m)
                    if digest(out) != digest(full):
                        raise Violation('budget-changes-answer', where % m)
                    k = m if k is None else k
        rec.state(op.name, need if op.exact else k, bool(job['extreme']))
        rec.log(i, k, draws)


def impossible(job, rec):
    for i in ixs(job):
        r = rng(job['seed'], i)
        if job['op'] == 'edges':
            continue            # has no impossible conditions of its own
        op = Op(job['op'], r, hard=True)
        s = derive(job['seed'], i, 'ome')
        last = -1
        for m in ([0] if op.name in ZERO else []) + [1, 2, 5, 12, 40]:
            out, n, d = attempt(op, m, s, rec)
            rec.count('runs')
            rec.count('fault:acceptance impossible')
            where = '%s, budget %d, impossible conditions' % (op.name, m)
            if out is not None:
                raise Violation('answer-to-impossible', where)
            if op.exact and n != m:
                raise Violation('wrong-number-of-attempts', where + ': %d attempts' % n)
            if d <= last if m else d:
                raise Violation('attempts-not-made' if m else 'attempt-without-budget', where + ': %d draws' % d)
            last = d
            rec.state(op.name, m, 'impossible')
            rec.log(i, m, n, d)


def law(job, rec):
    """Attempts are alike: needing more than two is needing more than one, twice."""
    r0 = rng(job['seed'])
    for i in range(job['n']):
        op = Op(job['op'], rng(job['seed'], i), tough=True)
        f = [attempt(op, m, derive(job['seed'], i, k), rec)[0] is None for k, m in enumerate([1, 1, 2])]
        if job['op'] == 'skeleton' or job['op'].startswith('twocoin'):
            # coins and end points repeat per budget; draw fresh ones for each call
            f = [attempt(Op(job['op'], _reseeded(job, i, k), tough=True), m, derive(job['seed'], i, k), rec)[0] is None
                 for k, m in enumerate([1, 1, 2])]
        rec.count('runs', 3)
        rec.state(job['op'], 'law', tuple(f))
        if not op.name.startswith('twocoin') and op.name != 'skeleton':
            rec.acc('two attempts', float(f[0] and f[1]) - f[2])
        else:
            rec.acc('more than one allowed', float(f[2] and not f[0]) - float(f[2] and not f[1]))
    del r0


def _reseeded(job, i, k):
    return rng(job['seed'], i, 'args', k)


def decide(job, rec):
    """Escape decisions are reached for every uniform, also where it meets the escape probability itself."""
    from ctbayes.sdelib import hitting
    for i in ixs(job):
        r = rng(job['seed'], i)
        T = float(np.exp(r.uniform(-2, 2)))
        s = np.sqrt(T)
        if i % 2:
            ue = s * float(r.uniform(.4, 1.5))
            x = r.uniform(-.8, .8, 2) * ue
            f = lambda u: hitting.sample_brownbr_esc(T, float(x[0]), float(x[1]), ue, None, u)      # noqa: E731
        else:
            ue = s * float(r.uniform(.8, 2))
            x = r.uniform(0, .9, 2) * ue
            if i % 4:
                x[0] = 0
            f = lambda u: hitting.sample_bessel3br_esc(T, float(x[0]), float(x[1]), ue, None, u)    # noqa: E731
        where = '%s from %r to %r over %r, level %r, uniform %%r' % ('bridge' if i % 2 else 'bessel bridge', x[0], x[1], T, ue)

        def ask(u):
            with core.patience(5, Violation('escape-undecided', where % u)):
                out = f(u)
            if out is None or out not in (True, False):
                raise Violation('invalid-answer', where % u + ': %r' % (out,))
            return bool(out)
        lo, hi = 0., 1.         # escapes at and below lo, not at or above hi
        rec.count('runs')
        if not ask(1e-300) or ask(1.):
            rec.count('probe:certain')
            continue
        steps = 0
        while np.nextafter(lo, 1) < hi and steps < 1100:
            mid = (lo + hi) / 2
            if ask(mid):
                lo = mid
            else:
                hi = mid
            steps += 1
        for u in (lo, hi):
            for _ in range(3):
                ask(u)
        rec.count('steps', steps)
        rec.state('decide', i % 4, round(lo, 2))
        rec.log(i, lo, hi)


# ------------------------------------------------------------------- streams with failing callbacks

class Failing(world.ByReference):
    def __init__(self, rec, at, exc):
        self.rec, self.n, self.at, self.exc, self.fired = rec, 0, at, exc, None

    def wrap(self, name, f):
        if not callable(f):
            return f

        def g(*a, **k):
            self.n += 1
            if self.n == self.at:
                self.fired = self.exc()
                self.rec.count('fault:callback raised')
                raise self.fired
            return f(*a, **k)
        return g


def stream(job, cb, t, vt, ome):
    """An iterator of results handed to the consumer."""
    name = job['stream']
    if name == 'ars':
        from ctbayes.misc import ars
        f, df = cb.wrap('f', lambda x: -np.square(x) / 2), cb.wrap('df', lambda x: -x)
        return ([x] for x in ars.sample(f, df, ome=ome, max_points=5))
    if name == 'sde':
        mod = models.assemble('ito', cb.wrap)
        fin_v = None if job['seed'] % 2 else .4
        return ([x] for x in mod.sample_sde(np.array([1.2, .8]), np.array([.1, .5, .9]), 1., .3, fin_v, ome))
    base, em = name.split(':')[0], ':' in name
    mod = models.assemble(base, cb.wrap)
    args = (t, vt) if base == 'ito' else (t, vt, 2)
    if em:
        return mod.maximize_posterior(*args, ome=ome, max_iter=5) if False else mod.maximize_posterior(*args, ome=ome)
    return mod.sample_posterior(*args, ome=ome, n_cores=job['cores'], precoin=job['precoin'], pr_portkey=.05)


def callback(job, rec):
    t, vt = models.data_set('uniform', 4, rng(job['seed'], 'data'))
    before = digest([t, vt])
    cb = Failing(rec, job['at'], EXCS[job['exc']])
    serialize = job['cores'] > 1
    world.Control(rec, max_draws=1500000).install()
    world.Scheduler(seed=job['seed'], serialize=serialize, rec=rec).install()
    ome = world.gen(derive(job['seed'], 'ome'), world.ACTIVE)
    kept, err = [], None
    try:
        it = stream(job, cb, t, vt, ome)
        for _ in range(40):
            x = next(it, None)
            if x is None or cb.fired is not None:
                break
            kept.append((x, digest_any(x)))
    except NoProgress:
        raise
    except BaseException as e:      # noqa: the consumer sees whatever arrives
        err = e
    rec.count('runs')
    where = '%s, callback %d raising %s' % (job['stream'], job['at'], type(cb.fired).__name__)
    rec.state(job['stream'], len(kept), type(err).__name__, cb.fired is not None)
    rec.log(len(kept), cb.n, type(err).__name__)
    if cb.fired is None:
        if err is not None:
            raise err
        rec.count('probe:stream outlived the fault plan')
        return
    if err is None:
        raise Violation('callback-error-swallowed', where + ': the stream went on')
    same = err is cb.fired or (serialize and type(err) is type(cb.fired) and err.args == cb.fired.args)
    if not same:
        raise Violation('callback-error-replaced', where + ': the consumer received %r' % err)
    if digest([t, vt]) != before:
        raise Violation('failure-altered-inputs', where)
    for x, d in kept:
        if digest_any(x) != d:
            raise Violation('failure-altered-results', where)


def digest_any(x):
    return digest(plainer(x))


def plainer(o):
    if isinstance(o, (list, tuple)):
        return [plainer(x) for x in o]
    if isinstance(o, dict):
        return {k: plainer(v) for k, v in o.items()}
    if o is None or isinstance(o, (bool, int, float, str, np.ndarray, np.number, np.bool_)):
        return o
    return str(type(o))


class Rejecting(world.ByReference):
    """Callbacks which reject everything after the chain has started."""

    def __init__(self, what):
        self.what, self.on = what, False

    def wrap(self, name, f):
        if name == 'eval_log_prior' and self.what in ('prior', 'both'):
            from toolz import curry

            def g(thi):
                key = np.asarray(thi, float).tobytes()
                return f(thi) if not self.on or key in self.ok else -np.inf
            return g
        if name == 'eval_bounds_disc' and self.what in ('bounds', 'both'):
            from toolz import curry

            def h(thi, *a):
                out = f(thi, *a)
                return (out[0], out[1], np.inf) if self.on else out
            return curry(h) if True else h
        return f


def reject(job, rec):
    """Callbacks which never accept: the chain stays where it is and says so by standing still."""
    cb = Rejecting(job['what'])
    r = rng(job['seed'])
    t, vt = models.data_set('uniform', 3, r)
    mod = models.assemble(job['stream'], cb.wrap)
    cb.ok = {np.asarray(mod.init_thi, float).tobytes()}
    world.Control(rec, max_draws=3000000).install()
    world.Scheduler(seed=job['seed'], serialize=False, rec=rec).install()
    ome = world.gen(derive(job['seed'], 'ome'), world.ACTIVE)
    kw = dict(ome=ome, precoin=job['precoin'], pr_portkey=.3)
    cb.on = job['stream'] == 'ito'
    it = mod.sample_posterior(t, vt, **kw) if job['stream'] == 'ito' else mod.sample_posterior(t, vt, 2, **kw)
    if not cb.on:
        x = next(it)
        cb.ok |= {np.asarray(row, float).tobytes() for row in np.atleast_2d(x[0])} | {np.asarray(x[0], float).tobytes()}
        cb.on = True
    first = None
    for k in range(5):
        x = next(it)
        rec.count('runs')
        rec.count('fault:callbacks reject everything')
        rec.state(job['stream'], job['what'], k)
        rec.log(k, digest_any(x[0]))
        cur = np.array(x[0], float)
        ref = np.asarray(mod.init_thi, float) if job['stream'] == 'ito' else None
        if first is None:
            first = x
        if job['what'] != 'bounds':
            if ref is not None and not np.array_equal(cur, ref) or not np.array_equal(cur, first[0]):
                raise Violation('impossible-parameters-accepted', '%s: %s' % (job['stream'], cur.tolist()))
        if not np.all(np.isfinite(cur)):
            raise Violation('invalid-answer', '%s: parameters %s' % (job['stream'], cur.tolist()))
        if job['what'] != 'prior' and job['stream'] == 'ito':
            # proposals with an unbounded functional are never accepted, nor is the current path redrawn
            for a, b in zip(first[1], x[1]):
                if (a.tight_z, a.loose_z) != (b.tight_z, b.loose_z):
                    raise Violation('impossible-path-accepted', 'ito')


def run(job, rec):
    {'budget': budget, 'decide': decide, 'impossible': impossible, 'law': law, 'callback': callback, 'reject': reject}[job['kind']](job, rec)


def shrink(job):
    if job['kind'] in ('budget', 'impossible', 'decide'):
        yield from only_each(job)
    if job['kind'] == 'callback':
        for at in (1, 2, 5, 20, job['at'] // 2):
            if at < job['at']:
                yield dict(job, at=at)
        if job['cores'] > 1:
            yield dict(job, cores=1)
