"""C07: cutting, pasting and redrawing regime paths preserves what must be kept."""
import numpy as np

from dst import joint, world
from dst.core import Violation, derive, digest, drop_each, rng

INFO = dict(
    level='exploration',
    rule='a run is one history of cuts, pastes, re-cuts, redraws, proposals and crashes inside redraws applied to a '
         'regime path, compared after every operation with a step-function model; states = digests of (operation, '
         'number of jumps, number of pieces, coincidence of cuts with jumps or ends)',
    real='ctbayes.mjplib.skeleton, ctbayes.misc.adapt.MyopicMjpSampler',
    stubs='none; the generator is the simulated one',
    assumptions=['cut times lie within the horizon and are non-decreasing'])


def plan(tier, seed):
    n = 2000 if tier == 'quick' else 40000
    jobs = []
    for i in range(n):
        r = rng('C07', seed, i)
        pool = [round(float(x), int(r.choice([1, 2, 8]))) for x in r.uniform(0, 1, 8)]
        ops = []
        for _ in range(int(r.integers(3, 14))):
            ops.append([str(r.choice(['cut', 'cut', 'redraw', 'redraw', 'paste', 'recut', 'random cut', 'propose', 'crash'])),
                        cuts(r, pool), int(r.integers(1, 20))])
        jobs.append({'seed': derive('C07', seed, i), 'dim': int(r.integers(2, 6)), 'sparse': bool(r.random() < .3),
                     'fin_t': float(r.choice([1.0, .1, 3.7, 50.0])), 'mean': float(r.choice([0., .5, 3., 12.])),
                     'origin': str(r.choice(['model', 'fwd', 'decimal'])), 'ops': ops,
                     'extreme': float(r.choice([0, 0, .1]))})
    return jobs


def cuts(r, pool):
    out = []
    for _ in range(int(r.choice([0, 1, 2, 4, 8]))):
        u = r.random()
        if u < .35:
            out.append(pool[int(r.integers(len(pool)))])
        elif u < .6:
            out.append('@%d' % int(r.integers(12)))     # at a jump
        elif u < .7:
            out.append(float(r.choice([0., 1.])))
        elif u < .8 and out:
            out.append(out[-1])                         # repeated
        else:
            out.append(float(r.uniform()))
    return out


def generator(job, r):
    n = job['dim']
    lam = r.gamma(1.5, 1, (n, n)) * (job['mean'] + .1) / job['fin_t'] / max(n - 1, 1)
    if job['sparse'] and n > 2:         # a ring: only neighbours can be reached
        keep = np.zeros((n, n), bool)
        for i in range(n):
            keep[i, (i + 1) % n] = True
            if r.random() < .5:
                keep[i, (i - 1) % n] = True
        lam = np.where(keep, lam + 1e-3, 0)
    np.fill_diagonal(lam, 0)
    np.fill_diagonal(lam, -lam.sum(1))
    return lam


def check_path(sk, fin_t, dim, where, lam=None):
    t, x = np.asarray(sk.t, float), np.asarray(sk.xt)
    if len(t) != len(x) or len(t) == 0:
        raise Violation('path-shape', '%s: %d times, %d states' % (where, len(t), len(x)))
    if t[0] != 0:
        raise Violation('start-not-zero', '%s: starts at %r' % (where, t[0]))
    if np.any(np.diff(t) <= 0):
        raise Violation('jumps-not-increasing', '%s: %s' % (where, t))
    if t[-1] >= fin_t * (1 + 1e-12):
        raise Violation('jump-outside-horizon', '%s: %r in %r' % (where, t[-1], fin_t))
    if np.any(x[1:] == x[:-1]):
        raise Violation('jump-to-same-state', '%s: states %s' % (where, x))
    if np.any(x < 0) or np.any(x >= dim) or np.any(x != np.round(x)):
        raise Violation('state-unknown', '%s: states %s' % (where, x))
    if abs(sk.fin_t - fin_t) > 1e-9 * fin_t:
        raise Violation('duration-changed', '%s: %r, was %r' % (where, sk.fin_t, fin_t))
    if lam is not None and any(lam[i, j] <= 0 for i, j in zip(x[:-1], x[1:])):
        raise Violation('impossible-jump', '%s: states %s' % (where, x))


def same(sk, t, x, fin_t, where):
    if len(sk.t) != len(t) or np.any(np.asarray(sk.xt) != x) or np.any(np.abs(sk.t - t) > 1e-9 * fin_t):
        raise Violation('path-changed', '%s: jumps %s states %s, expected %s %s' % (where, sk.t, sk.xt, t, x))


def state_at(t, x, q):
    return x[np.searchsorted(t, q, side='right') - 1]


def pieces_ok(parts, cut, t, x, fin_t, where):
    """The pieces must be the restrictions of the step function to the intervals between cuts."""
    edges = np.concatenate([[0], cut, [fin_t]])
    if len(parts) != len(cut) + 1:
        raise Violation('piece-count', '%s: %d pieces for %d cuts' % (where, len(parts), len(cut)))
    for p, a, b in zip(parts, edges[:-1], edges[1:]):
        if abs(p.fin_t - (b - a)) > 1e-9 * fin_t:
            raise Violation('piece-duration', '%s: %r for [%r, %r]' % (where, p.fin_t, a, b))
        if b == a:
            continue
        inside = (t > a) & (t < b)
        want_t = np.append(0, t[inside] - a)
        want_x = np.append(state_at(t, x, a), x[inside])
        if len(p.t) != len(want_t) or np.any(np.abs(p.t - want_t) > 1e-9 * fin_t) or np.any(p.xt != want_x):
            raise Violation('piece-differs', '%s: piece on [%r, %r] is %s %s, expected %s %s' % (
                where, a, b, p.t, p.xt, want_t, want_x))


def run(job, rec):
    from ctbayes.mjplib import skeleton as J
    from ctbayes.misc.adapt import MyopicMjpSampler
    r = rng(job['seed'])
    ctl = world.Control(rec, max_draws=200000)
    ome = world.gen(derive(job['seed'], 'ome'), ctl)
    fin_t, dim = job['fin_t'], job['dim']
    lam = generator(job, r)
    if job['origin'] == 'fwd':
        sk = J.sample_forwards(fin_t, int(r.integers(dim)), lam, ome)
    else:
        t, x = joint.jump_process(r, lam, fin_t)
        if job['origin'] == 'decimal':       # jump times on a decimal grid, where rounding bites
            k = len(t) - 1
            g = np.sort(r.choice(np.arange(1, 60), min(k, 30), replace=False)) / 60 * fin_t
            t, x = np.append(0, g), x[:len(g) + 1]
        sk = J.Skeleton(np.asarray(t, float), np.asarray(x), fin_t)
    if job['extreme']:
        ctl.extreme = (rng(job['seed'], 'x'), job['extreme'])
    check_path(sk, fin_t, dim, 'start', lam)
    rec.count('runs')
    parts, cut = None, None
    vault = []
    for k, (op, spec, num) in enumerate(job['ops']):
        t, x, fin_t = np.array(sk.t, float), np.array(sk.xt), float(sk.fin_t)
        where = 'operation %d (%s)' % (k, op)
        if op == 'recut' and parts is not None:
            sk2 = J.paste_partition(parts)      # rounding may move jumps: cut at the pieces' own jumps
            same(sk2, t, x, fin_t, where)
            sk, t, x = sk2, np.array(sk2.t, float), np.array(sk2.xt)
        c = np.array(sorted(place(q, t, fin_t) for q in spec), float)
        vault.append((sk, digest(list(sk))))
        vault += [(p, digest(list(p))) for p in parts or []]
        rec.count('steps')
        if op in ('cut', 'random cut', 'recut') or parts is None and op in ('paste', 'redraw', 'crash'):
            if op == 'random cut':
                parts, cut = J.sample_partition(sk, num / 6 / fin_t, ome)
                if np.any(np.diff(cut) < 0) or np.any(cut <= 0) or np.any(cut >= fin_t):
                    raise Violation('cuts-outside-horizon', '%s: %s' % (where, cut))
                near = np.abs(np.subtract.outer(cut, t))
                if np.any((near > 0) & (near < 1e-9 * fin_t)):
                    parts = None
                    continue
            elif op == 'recut' and parts is not None:
                before = [digest(list(p)) for p in parts]
                old = parts
                parts = J.repartition_skeleton(parts, c)
                cut = c
                if [digest(list(p)) for p in old] != before:
                    raise Violation('input-altered', where)
            else:
                parts, cut = J.partition_skeleton(sk, c), c
            pieces_ok(parts, cut, t, x, fin_t, where)
            back = J.paste_partition(parts)
            check_path(back, fin_t, dim, where + ' then paste')
            same(back, t, x, fin_t, where + ' then paste')
            probe = np.linspace(0, 1, 23) * fin_t * (1 - 1e-9)
            far = np.min(np.abs(probe[:, None] - t), 1) > 1e-9 * fin_t
            if np.any(np.asarray(back(probe[far])) != state_at(t, x, probe[far])):
                raise Violation('value-changed', where)
        if op == 'paste':
            back = J.paste_partition(parts)
            same(back, t, x, fin_t, where)
            sk, parts = back, None      # rounding may have moved its jumps off the cuts
        elif op in ('redraw', 'crash'):
            before = [digest(list(p)) for p in parts]
            if op == 'crash':
                ctl.crash_at = ctl.draws + num
            try:
                new = J.mutate_partition(parts, lam, ome)
            except world.SimCrash:
                new = None
            ctl.crash_at = None
            if [digest(list(p)) for p in parts] != before:
                raise Violation('input-altered', where)
            if new is None:
                continue
            pasted = J.paste_partition(new)
            check_path(pasted, fin_t, dim, where, lam)
            kept(pasted, t, x, cut, fin_t, where)
            cut = np.array([snap(q, np.asarray(pasted.t), pasted.fin_t) for q in cut], float)
            sk, parts = pasted, J.partition_skeleton(pasted, cut)
            rec.count('probe:redraws')
        elif op == 'propose':
            s = MyopicMjpSampler(sk)
            s.log_prop_scale = [(num - 10) / 4]
            tt = np.concatenate([[0.], np.unique(c[(c > 0) & (c < fin_t)]), [fin_t]])
            prop, t_cond = s.propose(lam, tt, ome)
            if not np.all(np.isin(t_cond, tt[1:-1])):
                raise Violation('unknown-cut-times', '%s: %s of %s' % (where, t_cond, tt))
            check_path(prop, fin_t, dim, where, lam)
            kept(prop, t, x, np.asarray(t_cond, float), fin_t, where)
            same(s.state, t, x, fin_t, where + ', sampler state')
            if num % 2:
                s.adapt(prop, .5)
                same(s.state, np.array(prop.t), np.array(prop.xt), fin_t, where + ', after acceptance')
                sk, parts = prop, None
            rec.count('probe:proposals')
        rec.state(op, len(sk.t), len(parts or []), int(np.isin(c, t).sum()))
        rec.log(k, op, len(sk.t), float(np.sum(sk.t)), int(np.sum(sk.xt)))
    for o, d in vault:
        if digest(list(o)) != d:
            raise Violation('input-altered', 'a path object changed after it was made')
    rec.count('sim_time', fin_t)


def place(q, t, fin_t):
    """A cut time; never a rounding error away from a jump or an end without being there."""
    if isinstance(q, str):
        return float(t[int(q[1:]) % len(t)])
    return snap(q * fin_t, t, fin_t)


def snap(q, t, fin_t):
    for s in np.append(t, fin_t):
        if abs(s - q) < 1e-9 * fin_t:
            return float(s)
    return q


def kept(new, t, x, cut, fin_t, where):
    if len(cut) == 0:
        return
    q = np.minimum(np.asarray(cut, float) + 1e-11 * fin_t, fin_t)
    now, then = state_at(np.asarray(new.t), np.asarray(new.xt), q), state_at(t, x, cut)
    if np.any(now != then):
        raise Violation('state-at-cut-changed', '%s: at %s was %s, now %s' % (where, cut, then, now))


def shrink(job):
    for ops in drop_each(job['ops'], 1):
        yield dict(job, ops=ops)
    for i, op in enumerate(job['ops']):
        for c in drop_each(op[1]):
            yield dict(job, ops=job['ops'][:i] + [[op[0], c, op[2]]] + job['ops'][i + 1:])
    if job['extreme']:
        yield dict(job, extreme=0)
