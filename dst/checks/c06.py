"""C06: Bernoulli factories - exact odds, right owner, bounded attempts."""
import numpy as np

from dst import world
from dst.core import Violation, derive, ixs, only_each, rng

INFO = dict(
    level='exploration',
    rule='a run flips two simulated coins through a factory and checks the log of all interactions against the '
         'protocol (owner of the returned object, no flip after the decision, attempt budget, errors of coins), and '
         'over many runs the odds, escape rate, choice of coin and number of flips against their closed forms; '
         'states = (factory, coin behaviour, outcome, number of flips, budget)',
    real='ctbayes.misc.bfactories, ctbayes.misc.exceptions',
    stubs='coins are simulated (scripted, failing, stateful, drawing from the shared generator)',
    assumptions=['successive flips of one coin are independent in the law jobs'])

BEHAVE = ['random', 'never', 'late', 'raises', 'kills', 'alternate']


def plan(tier, seed):
    jobs = []
    n = 240 if tier == 'quick' else 4000
    for k in range(n):
        jobs.append({'kind': 'protocol', 'seed': derive('C06p', seed, k), 'n': 60, 'joint': bool(k % 2)})
    reps, m = (36, 300) if tier == 'quick' else (80, 1200)
    cells = [(.5, .5, 0., 0.), (.9, .2, 0., .0), (.1, .3, 1., .0), (.6, .05, -1.5, .1), (.2, .7, 2., .5), (.05, .05, 0., .05),
             (.3, .6, 30., .2), (1., .5, -.7, 0.), (.4, .4, 700., 0.), (.3, .8, 0., 1.)]
    for joint in (False, True):
        for c, (p1, p2, dw, k_) in enumerate(cells):
            for k in range(reps):
                jobs.append({'kind': 'law', 'group': 'odds %s cell %d' % ('joint' if joint else 'two', c), 'p': [p1, p2],
                             'dw': dw, 'portkey': k_, 'n': m, 'joint': joint, 'seed': derive('C06', seed, joint, c, k)})
    rng('C06order', seed).shuffle(jobs)
    return jobs


class Token:
    def __init__(self, owner, k):
        self.owner, self.k = owner, k


class Coins:
    """Two simulated coins with one log."""

    def __init__(self, behave, p, ome, r, at=0, exc=None, draws=0):
        self.behave, self.p, self.ome, self.r, self.at, self.exc, self.draws = behave, p, ome, r, at, exc, draws
        self.log, self.tokens, self.decided = [], [], False
        self.primed = 0

    def flip(self, owner):
        if self.decided:
            raise Violation('flip-after-decision', 'coin %s flipped after a success' % owner)
        k = len(self.log)
        if self.behave in ('raises', 'kills') and k == self.at:
            raise self.exc
        for _ in range(self.draws):         # pacing: coins use the shared generator at their own rate
            self.ome.uniform()
        p = self.p[0 if owner else 1]
        if self.behave == 'never':
            ok = False
        elif self.behave == 'late':
            ok = k >= self.at
        elif self.behave == 'alternate':
            ok = k % 3 == 2
        else:
            ok = bool(self.r.random() < p)
        tok = Token(owner, k)
        self.tokens.append(tok)
        self.log.append((owner, ok))
        self.decided = ok
        return (ok if k % 2 else np.bool_(ok)), tok

    def separate(self, owner):
        while True:
            yield self.flip(owner)

    def both(self):
        self.primed += 1
        owner = yield None
        while True:
            owner = yield self.flip(bool(owner))


def call(job, F, coins, w1, w2, portkey, prop0, ome, budget):
    kw = {} if budget is None else {'max_props': budget}
    if job['joint']:
        return F.sample_twocoin_joint(w1, w2, coins.both(), portkey, ome, **kw)
    return F.sample_twocoin(w1, w2, coins.separate(True), coins.separate(False), portkey, prop0, ome, **kw)


def run(job, rec):
    {'protocol': protocol, 'law': law}[job['kind']](job, rec)


def protocol(job, rec):
    from ctbayes.misc import bfactories as F
    from ctbayes.misc.exceptions import BudgetConstraintError
    for i in ixs(job):
        r = rng(job['seed'], i)
        ctl = world.Control(rec, max_draws=200000)
        if r.random() < .3:
            ctl.extreme = (rng(job['seed'], i, 'x'), .3)
        ome = world.gen(derive(job['seed'], i, 'ome'), ctl)
        behave = BEHAVE[int(r.integers(len(BEHAVE)))]
        exc = world.SimCrash('coin failed') if behave == 'raises' else world.SimKill('killed')
        coins = Coins(behave, r.random(2), ome, r, int(r.integers(0, 6)), exc, int(r.integers(0, 3)))
        if behave in ('raises', 'kills'):
            rec.count('fault:coin raises')
            coins.p = coins.p * .3
        w = [float(r.choice([0., -1., 3., 800., -800., -np.inf])) for _ in range(2)]
        if np.isinf(w).all():
            w[0] = 0.
        portkey = float(r.choice([0., 0., .2, 1.]))
        budget = int(r.choice([0, 1, 2, 5, 40]))
        prop0 = Token('fallback', -1)
        where = '%s coins, weights %s, portkey %g, budget %d, flips %%s' % (behave, w, portkey, budget)
        out, err = None, None
        try:
            out = call(job, F, coins, w[0], w[1], portkey, prop0, ome, budget)
        except BudgetConstraintError as e:
            err = e
        except (world.SimCrash, world.SimKill) as e:
            if e is not exc:
                raise Violation('coin-error-replaced', where % coins.log)
            if len(coins.log) != coins.at:
                raise Violation('coin-error-late', where % coins.log)
            err = e
        where = where % coins.log
        rec.count('runs')
        rec.count('probe:' + ('budget error' if isinstance(err, BudgetConstraintError) else 'coin error' if err else 'answer'))
        rec.state(job['joint'], behave, budget, len(coins.log), str(out[:2] if out else type(err).__name__), portkey)
        rec.log(i, coins.log, str(out[:2] if out else err))
        if len(coins.log) > budget:
            raise Violation('too-many-attempts', where)
        if job['joint'] and coins.primed != 1:
            raise Violation('joint-coin-not-started-once', where)
        for owner, ok in coins.log:
            if np.isneginf(w[0 if owner else 1]) or w[1 if owner else 0] - w[0 if owner else 1] > 1500:
                raise Violation('impossible-coin-flipped', where)
        if isinstance(err, BudgetConstraintError):
            if len(coins.log) != budget or coins.decided:
                raise Violation('budget-error-early' if not coins.decided else 'budget-error-after-success', where)
            continue
        if err is not None:
            continue
        heads, escaped, prop = out
        if not coins.log:
            raise Violation('answer-without-flip', where)
        owner, ok = coins.log[-1]
        last = coins.tokens[-1]
        if escaped:
            if heads or ok or portkey == 0:
                raise Violation('escape-misreported', where + ', returned %s' % (out[:2],))
            if prop is not (last if job['joint'] else prop0):
                raise Violation('wrong-object', where + ', on escape')
        else:
            if not ok:
                raise Violation('answer-without-success', where + ', returned %s' % (out[:2],))
            if bool(heads) != owner:
                raise Violation('wrong-winner', where + ', returned %s' % (out[:2],))
            if prop is not last:
                raise Violation('wrong-object', where)
        if portkey == 1 and len(coins.log) > 1:
            raise Violation('escape-ignored', where)


def law(job, rec):
    from ctbayes.misc import bfactories as F
    r = rng(job['seed'])
    ctl = world.Control(rec)
    ome = world.gen(derive(job['seed'], 'ome'), ctl)
    for i in range(job['n']):
        base = float(r.choice([0., -700., 300.]))
        p1, p2 = job['p']
        if i % 2:           # coins with a state of their own: bias drawn per call
            p1, p2 = p1 * r.uniform(.3, 1), p2 * r.uniform(.3, 1)
        dw, k = job['dw'], job['portkey']
        v1 = 1 / (1 + np.exp(-dw))
        s1, s2 = v1 * p1, (1 - v1) * p2
        s = s1 + s2
        end = 1 - (1 - s) * (1 - k)
        ph, pt, pe = s1 / end, s2 / end, (1 - s) * k / end
        coins = Coins('random', (p1, p2), ome, r, draws=int(r.integers(0, 3)))
        if i % 3 == 0:
            coins.r = ome           # the coin draws from the shared generator
        heads, escaped, _ = call(job, F, coins, base + dw, base, k, None, ome, None)
        n = len(coins.log)
        rec.count('runs')
        rec.state(job['group'], bool(heads), bool(escaped), n)
        rec.acc('heads', bool(heads) - ph, ph * (1 - ph))
        rec.acc('tails', (not heads and not escaped) - pt, pt * (1 - pt))
        rec.acc('escape', bool(escaped) - pe, pe * (1 - pe))
        rec.acc('first choice', coins.log[0][0] - v1, v1 * (1 - v1))
        rec.acc('choices', sum(c[0] - v1 for c in coins.log))
        rec.acc('flips', (n - 1 / end) * end, (1 - end))
        rec.acc('one flip', (n == 1) - end, end * (1 - end))
        if n > 1:
            rec.acc('second choice', coins.log[1][0] - v1, v1 * (1 - v1))
        # outcome is independent of how long it took
        rec.acc('heads.one flip', (bool(heads) - ph) * ((n == 1) - end))
        fails = [c for c in coins.log if not c[1]]
        rec.acc('escapes per failure', bool(escaped) - k * len(fails))
    rec.log(ctl.draws)


def shrink(job):
    if job['kind'] == 'protocol':
        yield from only_each(job)


def shrink_law(jobs):
    for p, dw, k in (([.5, .5], 0., 0.), ([.5, .25], 0., .5)):
        yield [dict(j, p=p, dw=dw, portkey=k) for j in jobs]
