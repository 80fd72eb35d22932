"""C03: values of lazily revealed paths are permanent and consistent under any query history."""
import numpy as np

from dst import models, world
from dst.core import Alarm, NoProgress, Violation, derive, digest, drop_each, rng

INFO = dict(
    level='exploration',
    rule='a run is one history of queries (new, old, edge and extremum times, any batching), forks, flips and '
         'crashes inside a query on one lazily revealed path, checked after every operation against a '
         'time -> value dictionary per branch; non-trivial when a time was queried again or a branch was forked; '
         'states = digests of (mode, orientation, reach record, number of points)',
    real='ctbayes.ea3lib (skeleton, seed), ctbayes.sdelib, shipped normalizing maps',
    stubs='none; the random generator is the simulated one (draw count, crashes, extreme uniforms)',
    assumptions=['query times distinct and increasing within a query, at least 1e-11 of the horizon apart'])

GAP = 1e-11


def plan(tier, seed):
    n = 2400 if tier == 'quick' else 60000
    jobs = []
    for i in range(n):
        r = rng('C03', seed, i)
        mode = ['skel', 'skel', 'seed:ito', 'seed:ou', 'seed:ou2', 'seed:ou3'][i % 6]
        pool = [round(float(x), int(r.choice([1, 2, 6]))) for x in r.uniform(0.01, .99, 12)]
        pool = [x for x in pool if 0 < x < 1] or [.5]
        ops, n_br = [], 1
        for _ in range(int(r.integers(4, 22))):
            b = int(r.integers(n_br))
            u = r.random()
            if u < .62 or n_br == 0:
                ops.append(['q', b, times(r, pool)])
            elif u < .76:
                ops.append(['crash', b, times(r, pool), int(r.integers(1, 12)), bool(r.random() < .5)])
            elif u < .9:
                ops.append(['fork', b])
                n_br += 1
            else:
                ops.append(['flip', b])
        jobs.append({'seed': derive('C03', seed, i), 'mode': mode, 'ops': ops,
                     'fin_t': float(r.choice([1.0, .1, .7, 3.0, float(np.exp(r.uniform(-4, 2)))])),
                     'same': bool(r.random() < .3),
                     'bounded': [0, 0, 0, 1, 2, 3, 4][int(r.integers(7))],
                     'extreme': float(r.choice([0, 0, .02, .1]))})
    return jobs


def times(r, pool):
    """Increasing times as fractions; '@k' is the k-th known time, '@tight' the extremum's."""
    k = int(r.choice([0, 1, 1, 2, 3, 5, 9], p=[.05, .3, .15, .2, .15, .1, .05]))
    out = []
    for _ in range(k):
        u = r.random()
        if u < .35:
            out.append(pool[int(r.integers(len(pool)))])
        elif u < .6:
            out.append(float(r.uniform(0, 1)))
        elif u < .68:
            out.append(float(r.choice([1e-7, 1 - 1e-7, 1e-4, 1 - 1e-4])))
        elif u < .74:
            out.append(float(r.choice([0., 1.])))
        elif u < .82:
            out.append('@tight')
        elif u < .9:
            out.append('@near%d:%g' % (int(r.integers(20)), r.choice([1e-6, 1e-6, 1e-8, 1e-10, 3e-11])))
        else:
            out.append('@%d' % int(r.integers(20)))
    return out


class Skel:
    """A path with the skeleton interface, in its own coordinates."""

    def __init__(self, job, r, ome):
        from ctbayes.ea3lib import skeleton as K
        self.K = K
        self.fin_t = job['fin_t']
        a = float(r.normal()) if not job['same'] else 0.0
        b = a if job['same'] else float(a + r.normal() * np.sqrt(self.fin_t))
        bounds = (-np.inf, np.inf)
        if job['bounded']:
            lo, hi = np.sqrt(self.fin_t) * r.uniform(.5 if job['bounded'] < 3 else .1, 2, 2)      # 1 alike, 2 unlike, 3 lower only, 4 upper only
            hi = lo if job['bounded'] == 1 else hi
            bounds = (min(a, b) - lo if job['bounded'] < 4 else -np.inf, max(a, b) + hi if job['bounded'] != 3 else np.inf)
        self.ends = (a, b)
        self.path = K.sample_raw_skeleton(self.fin_t, a, b, bounds, ome)
        self.bounds = bounds

    def query(self, path, t, ome):
        return self.K.interpolate_skeleton(path, t, ome)

    def view(self, path):
        return path.t, path.x, path.tight_x, path.loose_x, path.hit_x, path.hit_i

    def to_path(self, t, x):
        return x

    def flip(self, path):
        return self.K.flip_skeleton(path)


class Seed:
    """A path seed seen through a shipped normalizing map."""

    def __init__(self, job, r, ome):
        from ctbayes.ea3lib import seed as S
        self.S = S
        name = job['mode'].split(':')[1]
        M = models.module(name)
        self.fin_t = job['fin_t']
        v = r.normal(size=2)
        if job['same']:
            v[1] = v[0]
        if name == 'ito':
            self.ops = M.gen_normops(np.exp(r.normal(size=2) * .5), np.array([0., self.fin_t]), v)[0]
        else:
            thi = np.exp(r.normal(size=(2, 2)) * .5)
            self.ops = list(M.gen_normops(thi, np.array([0., self.fin_t]), np.array([0, 1]), v))[0]
        self.fin_t = float(self.ops[1](np.ones(1), None)[0][0])
        self.path = S.sample_raw_seed(M.bounds_x, *self.ops, ome)
        self.ends = tuple(self.ops[1](np.array([0., 1.]), np.zeros(2))[1])
        self.bounds = (-np.inf, np.inf)

    def query(self, path, t, ome):
        return self.S.interpolate_seed(path, t, *self.ops, ome)

    def view(self, path):
        return path.s, path.z, path.tight_z, path.loose_z, path.hit_z, path.hit_i

    def to_path(self, t, x):
        return self.ops[0](np.asarray(t, float), np.asarray(x, float))[1]


def near(a, b, scale):
    return abs(a - b) <= 1e-9 * scale + 1e-12


def check_path(P, path, where, mirrored=False):
    t, x, tight, loose, hit, hit_i = P.view(path)
    lo, hi = min(tight, loose), max(tight, loose)
    scale = max(1.0, abs(lo), abs(hi)) if np.isfinite(loose) else max(1.0, abs(tight))
    if len(t) != len(x) or len(t) < 3:
        raise Violation('path-shape', '%s: %d times, %d values' % (where, len(t), len(x)))
    if not np.all(np.isfinite(t)) or not np.all(np.isfinite(x)):
        raise Violation('path-not-finite', where)
    if np.any(np.diff(t) <= 0):
        raise Violation('times-not-increasing', '%s: smallest gap %g' % (where, np.min(np.diff(t))))
    if t[0] != 0 or abs(t[-1] - (P.fin_t if isinstance(P, Skel) else 1)) > 1e-12 * max(1, t[-1]):
        raise Violation('ends-moved', '%s: %r..%r' % (where, t[0], t[-1]))
    if np.any(x < lo - 1e-9 * scale) or np.any(x > hi + 1e-9 * scale):
        raise Violation('value-out-of-bounds', '%s: values %g..%g, bounds %g..%g' % (where, x.min(), x.max(), lo, hi))
    if np.min(np.abs(x - tight)) > 1e-9 * scale:
        raise Violation('extremum-lost', '%s: extremum %r not on the path' % (where, tight))
    if np.min(np.abs(x - loose)) == 0:
        raise Violation('outer-bound-attained', '%s: value at the outer bound' % where)
    lb, ub = P.bounds if not mirrored else (sum(P.ends) - P.bounds[1], sum(P.ends) - P.bounds[0])
    if lo < lb - 1e-9 * scale or hi > ub + 1e-9 * scale:
        raise Violation('outside-given-bounds', '%s: %g..%g not within %g..%g' % (where, lo, hi, lb, ub))
    if not lo <= hit <= hi:
        raise Violation('far-level-out-of-order', '%s: %g not within %g..%g' % (where, hit, lo, hi))
    if hit_i is not None:
        if len(hit_i) != len(t) - 1:
            raise Violation('reach-record-length', '%s: %d flags for %d stretches' % (where, len(hit_i), len(t) - 1))
        far = (x - hit) * np.sign(loose - tight)
        for k in np.nonzero(far > 1e-9 * scale)[0]:
            if (k > 0 and not hit_i[k - 1]) or (k < len(t) - 1 and not hit_i[k]):
                raise Violation('reach-record-contradicted', '%s: value beyond the far level beside a stretch '
                                'recorded as not reaching it' % where)
    return t, x


def refine(P, old, new, where):
    """The reach record of a refinement must agree with the record it refines."""
    t0, _, _, _, _, h0 = P.view(old)
    t1, _, _, _, _, h1 = P.view(new)
    if (h0 is None) != (h1 is None):
        raise Violation('reach-record-lost', '%s: record %s' % (where, 'dropped' if h1 is None else 'invented'))
    ix = np.searchsorted(t1, t0 - 1e-12 * t0[-1])
    if len(np.unique(ix)) != len(ix) or np.any(ix >= len(t1)) or np.any(np.abs(t1[ix] - t0) > 1e-11 * t0[-1]):
        raise Violation('point-lost', '%s: an earlier time is gone' % where)
    if h0 is None:
        return
    for k in range(len(t0) - 1):
        sub = h1[ix[k]:ix[k + 1]]
        if bool(h0[k]) != any(bool(s) for s in sub):
            raise Violation('reach-record-changed', '%s: stretch %d recorded %s, its parts %s' % (
                where, k, bool(h0[k]), list(map(bool, sub))))


def run(job, rec):
    r = rng(job['seed'])
    ctl = world.Control(rec, max_draws=400000)
    if job['extreme']:
        ctl.extreme = (rng(job['seed'], 'extreme'), job['extreme'])
    ome = world.gen(derive(job['seed'], 'ome'), ctl)
    ctl.extreme, ext = None, ctl.extreme
    P = (Skel if job['mode'] == 'skel' else Seed)(job, r, ome)
    ctl.extreme = ext
    rec.count('runs')
    rec.count('sim_time', P.fin_t)
    check_path(P, P.path, 'start')
    base = {0.0: float(P.ends[0]), float(P.fin_t): float(P.ends[1])}
    br = [[P.path, base, False]]        # path, known values, mirrored
    vault = []                          # every path object ever seen, with its digest
    again = 0
    for k, op in enumerate(job['ops']):
        if op[1] >= len(br):
            continue
        path, known, mirrored = br[op[1]]
        vault.append((path, digest(list(path)), k))
        where = 'operation %d (%s)' % (k, op[0])
        if op[0] == 'fork':
            br.append([path, dict(known), mirrored])
            rec.count('probe:forks')
            continue
        if op[0] == 'flip':
            if job['mode'] != 'skel':
                continue
            new = P.flip(path)
            back = P.flip(new)
            if np.max(np.abs(np.array(back.x) - path.x)) > 1e-9 * max(1, np.max(np.abs(path.x))) or \
                    np.max(np.abs(back.t - path.t)) > 1e-12 * P.fin_t or back.hit_i != path.hit_i:
                raise Violation('flip-not-involutive', where)
            mid2 = path.x[0] + path.x[-1]
            br[op[1]] = [new, {at(new.t, P.fin_t - t): mid2 - x for t, x in known.items()}, not mirrored]
            # a mirrored path is judged on its own known times from here on
            check_path(P, new, where, not mirrored)
            rec.count('probe:flips')
            continue
        ts = resolve(P, path, op[2], known)
        if op[0] == 'crash':
            ctl.crash_at, ctl.fired = ctl.draws + op[3], False
            ctl.crash_exc = world.SimKill if op[4] else world.SimCrash
            before = digest(list(path))
            try:
                new, x = P.query(path, ts, ome)
            except (world.SimCrash, world.SimKill):
                ctl.crash_at = None
                if digest(list(path)) != before:
                    raise Violation('failed-query-altered-path', where)
                rec.log(k, 'crashed')
                continue
            ctl.crash_at = None
        else:
            before, start = digest(list(path)), ctl.draws
            ctl.max_draws = start + 100000
            try:
                new, x = P.query(path, ts, ome)
            except NoProgress as e:
                # extreme draws can condition the rest of the path on the near impossible
                if not job['extreme'] or isinstance(e, Alarm):
                    raise
                rec.count('probe:refused under extreme draws')
                if digest(list(path)) != before:
                    raise Violation('failed-query-altered-path', where)
                continue
        x = np.asarray(x, float)
        if x.shape != ts.shape:
            raise Violation('answer-shape', '%s: %d values for %d times' % (where, x.size, ts.size))
        check_path(P, new, where, mirrored)
        refine(P, path, new, where)
        scale = max(1.0, float(np.max(np.abs(list(known.values())))), float(np.max(np.abs(x), initial=0)))
        for t, v in zip(ts, x):
            t = float(t)
            old = lookup(known, t, P.fin_t)
            if old is not None:
                again += 1
                if not near(old, v, scale):
                    raise Violation('value-changed', '%s: value at time %r was %r and is now %r' % (where, t, old, float(v)))
            else:
                known[t] = float(v)
        # the object itself must hold what it answered
        st, sx, *_ = P.view(new)
        if len(ts):
            want = P.to_path(ts, x)
            s = ts if isinstance(P, Skel) else P.ops[0](ts, None)[0]
            pos = np.clip(np.searchsorted(st, s - 1e-12 * st[-1]), 0, len(st) - 1)
            if np.any(np.abs(st[pos] - s) > 1e-11 * st[-1]) or np.any(np.abs(sx[pos] - want) > 1e-8 * scale):
                raise Violation('answer-not-on-path', where)
        # every known value must still be what the path says
        br[op[1]][0] = new
        rec.state(job['mode'], bool(new[2] < new[3]), None if new[5] is None else [bool(h) for h in new[5]][:12], len(st))
        rec.log(k, op[0], len(ts), float(np.sum(x)))
    for path, dg, k in vault:
        if digest(list(path)) != dg:
            raise Violation('earlier-path-altered', 'path object from before operation %d changed later' % k)
    ctl.extreme, ctl.max_draws = None, None
    for path, known, _ in br:       # final audit: ask everything again at once
        ts = np.array(sorted(known))
        ts = ts[np.append(True, np.diff(ts) > GAP * P.fin_t / 2)]
        x = P.query(path, ts, ome)[1]
        for t, v in zip(ts, x):
            if not near(known[float(t)], v, max(1, abs(v))):
                raise Violation('value-changed', 'final audit: value at %r was %r and is now %r' % (t, known[float(t)], v))
    rec.count('probe:times queried again', again)
    rec.count('probe:branches', len(br))
    rec.count('probe:paths with reach record', int(P.path[5] is not None))


def at(st, t):
    """The time as the path itself holds it (mirroring rounds)."""
    return float(st[int(np.argmin(np.abs(st - t)))])


def lookup(known, t, fin_t):
    if t in known:
        return known[t]
    for s, v in known.items():
        if abs(s - t) <= 1e-13 * fin_t:
            return v


def resolve(P, path, spec, known):
    st = P.view(path)[0]
    ks = sorted(known)
    out = []
    for q in spec:
        if isinstance(q, str):
            if q == '@tight':
                z = P.view(path)
                k = int(np.argmin(np.abs(z[1] - z[2])))
                t = st[k]
                if not isinstance(P, Skel):
                    t = float(P.ops[1](np.array([st[k]]), None)[0][0])
                    if P.ops[0](np.array([t]), None)[0][0] != st[k]:
                        continue
            elif q.startswith('@near'):
                ix, far = q[5:].split(':')
                t = ks[int(ix) % len(ks)]
                t += float(far) * P.fin_t * (1 if t < P.fin_t / 2 else -1)
            else:
                t = ks[int(q[1:]) % len(ks)]
        else:
            t = q * P.fin_t
        out.append(float(min(max(t, 0.0), P.fin_t)))
    out = sorted(set(out))
    keep = []
    have = st if isinstance(P, Skel) else P.ops[1](st, None)[0]
    for t in out:
        if keep and t - keep[-1] < GAP * P.fin_t:
            continue
        k = min(known, key=lambda q: abs(q - t))
        if abs(k - t) < GAP * P.fin_t:      # a rounding neighbour of a known time: ask for the known one
            t = k
        else:
            d = np.min(np.abs(have - t))
            if 0 < d < GAP * P.fin_t:
                continue
        keep.append(t)
    return np.array(keep, float)


def shrink(job):
    for ops in drop_each(job['ops'], 1):
        yield dict(job, ops=ops)
    for i, op in enumerate(job['ops']):
        if op[0] in 'q' and len(op[2]) > 1:
            for ts in drop_each(op[2], 1):
                yield dict(job, ops=job['ops'][:i] + [[op[0], op[1], ts]] + job['ops'][i + 1:])
    if job['extreme']:
        yield dict(job, extreme=0)
    if job['bounded']:
        yield dict(job, bounded=0)
