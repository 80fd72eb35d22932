"""C15: forward, backward, bridged and redrawn regime paths follow the Markov jump process law."""
import numpy as np
from scipy.linalg import expm

from dst import joint, world
from dst.checks.c07 import check_path
from dst.core import NoProgress, Violation, derive, patience, rng

INFO = dict(
    level='exploration',
    rule='a run draws regime paths with the sampler under test in a seeded mix of calls on one generator (redraws in '
         'several rounds with changing cuts, crashes inside a redraw, extreme uniforms), checks validity and end '
         'states of each and accumulates states at query times, pairs of them, jump counts and the first jump '
         'against matrix exponentials; states = (sampler, rates, horizon, ends, jumps) classes',
    real='ctbayes.mjplib.skeleton', stubs='none; the generator is the simulated one',
    assumptions=['sampled evidence: two-stage z tests', 'two or more regimes; the end state can be reached'])


def ring(q, back=0.):
    n = len(q)
    lam = np.zeros((n, n))
    for i in range(n):
        lam[i, (i + 1) % n] += q[i]
        if back:
            lam[i, (i - 1) % n] += back
    return diag(lam)


def diag(lam):
    lam = np.array(lam, float)
    np.fill_diagonal(lam, 0)
    np.fill_diagonal(lam, -lam.sum(1))
    return lam


CELLS = {
    'two states': (diag([[0, 3.], [.4, 0]]), .5),
    'two states, short': (diag([[0, .8], [1.5, 0]]), .08),
    'three states': (diag([[0, 1., .2], [.3, 0, 2.], [1.2, .1, 0]]), 1.1),
    'three states, long': (diag([[0, 1., .2], [.3, 0, .5], [1.2, .1, 0]]), 30.),
    'ring': (ring([2., 1., 3., .7]), 1.0),
    'ring, short': (ring([2., 1., 3.]), .02),
    'two states, very long': (diag([[0, 1.], [2., 0]]), 700.),
    'stiff': (diag([[0, 30., .05, .2], [8., 0, .1, .02], [.1, .02, 0, 1.], [.5, .1, 4., 0]]), .9),
    'absorbing': (diag([[0, 1., .3], [.5, 0, .6], [0, 0, 0]]), 1.2),
    'five states': (diag([[0, .1, .9, .2, .4], [.8, 0, .1, .1, .1], [.2, .6, 0, .3, .9], [.1, .1, 1.4, 0, .2], [2., .1, .3, .3, 0]]), 2.0),
}
REACH = {'absorbing': [(0, 2), (1, 0), (0, 0), (2, 2), (1, 2)]}
_cache = {}


def my_expm(a):
    """The 2x2 formula of scipy overflows: pad with an absorbing state nobody enters."""
    if len(a) == 2:
        return expm(np.pad(a, (0, 1)))[:2, :2]
    return expm(a)


def trans(lam, t):
    k = (lam.tobytes(), float(t))
    if k not in _cache:
        if len(_cache) > 5000:
            _cache.clear()
        _cache[k] = my_expm(lam * t)
    return _cache[k]


def plan(tier, seed):
    jobs = []
    reps, n = (6, 260) if tier == 'quick' else (40, 1200)
    for cell in list(CELLS) + ['random']:
        for kind in ('forwards', 'stationary', 'bridge', 'backwards', 'redraw'):
            if cell == 'absorbing' and kind == 'stationary':
                continue
            for k in range(reps):
                jobs.append({'kind': kind, 'cell': cell, 'group': '%s %s' % (kind, cell), 'n': n // 8 if 'very' in cell else n,
                             'rounds': int(rng('C15r', seed, cell, k).choice([1, 1, 2, 3])),
                             'seed': derive('C15', seed, cell, kind, k)})
    m = 60 if tier == 'quick' else 600
    for k in range(m):
        jobs.append({'kind': 'faults', 'seed': derive('C15f', seed, k), 'n': 12})
    rng('C15order', seed).shuffle(jobs)
    return jobs


def model(job, r):
    if job.get('cell', 'random') != 'random':
        return CELLS[job['cell']]
    n = int(r.integers(2, 6))
    lam = r.gamma(1.2, 1., (n, n))
    if r.random() < .4:
        lam[r.random((n, n)) < .3] = 0
        for i in range(n):
            lam[i, (i + 1) % n] += .1
    return diag(lam), float(r.choice([1e-4, .01, .1, .7, 3., 12.]))


def run(job, rec):
    with np.errstate(all='ignore'):
        {'faults': faults}.get(job['kind'], law)(job, rec)


def at(sk, q):
    return np.asarray(sk.xt)[np.searchsorted(np.asarray(sk.t, float), q, side='right') - 1]


def law(job, rec):
    from ctbayes.mjplib import skeleton as S
    r = rng(job['seed'])
    lam, T = model(job, r)
    n = len(lam)
    ctl = world.Control(rec, max_draws=int(job['n'] * (500 + 20 * T * np.max(-np.diag(lam)))))
    ome = world.gen(derive(job['seed'], 'ome'), ctl, ['PCG64', 'MT19937', 'Philox'][int(r.integers(3))])
    kind = job['kind']
    q = np.array([.13, .5, .86]) * T if r.random() < .7 else np.sort(r.uniform(.02, .98, 3)) * T
    P = trans(lam, T)
    cuts = [float(x) * T for x in np.sort(r.uniform(0, 1, int(r.choice([0, 1, 2, 5]))))]
    last = None
    for k in range(job['n']):
        y0 = yT = None
        if kind == 'forwards':
            y0 = int(r.integers(n))
            sk = S.sample_forwards(T, y0, lam, ome)
            p0 = np.eye(n)[y0]
        elif kind == 'stationary':
            sk = S.sample_forwards(T, None, lam, ome)
            A = np.vstack([lam.T, np.ones(n)])
            p0 = np.linalg.lstsq(A, np.append(np.zeros(n), 1), rcond=None)[0]
        elif kind in ('bridge', 'backwards'):
            pairs = REACH.get(job['cell']) or [(a, b) for a in range(n) for b in range(n) if P[a, b] > 1e-13]
            y0, yT = pairs[int(r.integers(len(pairs)))]
            if kind == 'bridge':
                sk = S.sample_bridge(T, y0, yT, lam, ome)
                p0 = np.eye(n)[y0]
            else:
                y0 = None
                sk = S.sample_backwards(T, yT, lam, ome)
                p0 = P[:, yT] / P[:, yT].sum()
        else:
            sk = S.Skeleton(*joint.jump_process(r, lam, T), T)
            for _ in range(job['rounds']):
                c = cuts if r.random() < .5 else [float(x) * T for x in np.sort(r.uniform(0, 1, int(r.choice([0, 1, 3]))))]
                sk = S.paste_partition(S.mutate_partition(S.partition_skeleton(sk, np.array(c)), lam, ome))
            p0 = np.full(n, 1 / n)
        where = '%s, rates %s, horizon %r, ends %s' % (kind, lam.tolist(), T, (y0, yT))
        check_path(sk, T, n, where, lam)
        if y0 is not None and sk.xt[0] != y0:
            raise Violation('wrong-start', where + ': %s' % (sk.xt,))
        if yT is not None and sk.xt[-1] != yT:
            raise Violation('wrong-end', where + ': %s' % (sk.xt,))
        rec.count('runs')
        rec.count('sim_time', T)
        if k % 10 == 0:
            rec.state(job['group'], y0, yT, min(len(sk.t), 6))
            rec.log(k, [float(x) for x in sk.t[:4]], [int(x) for x in sk.xt[:4]])
        # exact finite-dimensional law
        x = at(sk, q)
        tag = '' if yT is None else ' loop' if y0 == yT else ' to %d' % yT
        F = fdd(lam, T, q, p0, yT)
        for m in range(3):
            rec.acc_choice('state at %d%s' % (m, tag), x[m], np.sum(F, tuple(j for j in range(3) if j != m)))
        rec.acc_choice('first pair' + tag, x[0] * n + x[1], F.sum(2).ravel())
        rec.acc_choice('last pair' + tag, x[1] * n + x[2], F.sum(0).ravel())
        rec.acc_choice('three', (x[0] * n + x[1]) * n + x[2], F.ravel(), .05)
        m1 = F.sum((0, 2))
        e = (x[1] == 0) - m1[0]
        if last is not None:
            rec.acc('successive', e * last)
        last = e
        want = jumps(lam, T, p0, yT)
        if abs(want - np.round(want)) > .03 or want > 3:      # rare events are no matter for a z test
            rest = abs(want - np.round(want))
            rec.acc('jumps' + tag, len(sk.t) - 1 - want, rest * (1 - rest))
        # no jump at all, or the time of the first one
        i0 = int(sk.xt[0])
        q0 = -lam[i0, i0]
        stay = np.exp(-q0 * T) if yT is None else (np.exp(-q0 * T) / P[i0, yT] if i0 == yT else 0.)
        stay = min(stay, 1.)
        if .02 < stay < .98:
            rec.acc('no jump' + tag, (len(sk.t) == 1) - stay, stay * (1 - stay))
        if len(sk.t) > 1:
            s = float(sk.t[1])
            if yT is None:
                u = np.expm1(-q0 * s) / np.expm1(-q0 * T)
            else:                       # P(no jump before s, end) = exp(-q0 s) P[i0, yT](T - s)
                g = np.exp(-q0 * s) * trans_at(lam, T - s)[i0, yT] / P[i0, yT]
                u = (1 - g) / (1 - stay)
            rec.acc_pit('first jump', u, 6)
            if yT is None:
                pr = lam[i0].copy()
                pr[i0] = 0
                rec.acc_choice('target from %d' % i0, int(sk.xt[1]), pr / pr.sum())


_eig = {}


def trans_at(lam, t):
    """Transition matrix at an arbitrary time: uniformization, independent of the code under test."""
    k = lam.tobytes()
    if k not in _eig:
        if len(_eig) > 200:
            _eig.clear()
        w, v = np.linalg.eig(lam)
        vi = np.linalg.inv(v) if np.linalg.cond(v) < 1e6 else None
        _eig[k] = w, v, vi
    w, v, vi = _eig[k]
    if vi is None or t < 1e-2:          # tiny entries need relative accuracy
        return my_expm(lam * t)
    return ((v * np.exp(w * t)) @ vi).real


_fdd = {}


def fdd(lam, T, q, p0, yT):
    k = (lam.tobytes(), T, q.tobytes(), p0.tobytes(), yT)
    if k not in _fdd:
        if len(_fdd) > 3000:
            _fdd.clear()
        n = len(lam)
        A, B, C = trans(lam, q[0]), trans(lam, q[1] - q[0]), trans(lam, q[2] - q[1])
        D = trans(lam, T - q[2])
        end = np.ones(n) if yT is None else D[:, yT]
        F = np.zeros((n, n, n))
        for i in range(n):
            if p0[i] <= 1e-300:
                continue
            G = A[i][:, None, None] * B[:, :, None] * C[None] * end[None, None, :]
            F += p0[i] * G / G.sum()
        _fdd[k] = F
    return _fdd[k]


_jmp = {}


def jumps(lam, T, p0, yT):
    """Expected number of jumps (van Loan block exponential)."""
    k = (lam.tobytes(), T, p0.tobytes(), yT)
    if k not in _jmp:
        if len(_jmp) > 3000:
            _jmp.clear()
        n = len(lam)
        off = lam - np.diag(np.diag(lam))
        M = expm(np.block([[lam, off], [np.zeros((n, n)), lam]]) * T)[:n, n:]
        P = trans(lam, T)
        if yT is None:
            _jmp[k] = float(p0 @ M.sum(1))
        else:
            _jmp[k] = float(sum(p0[i] * M[i, yT] / P[i, yT] for i in range(n) if p0[i] > 1e-300))
    return _jmp[k]


def faults(job, rec):
    """Extreme uniforms and crashes: whatever is returned is valid, and the old path is left alone."""
    from ctbayes.mjplib import skeleton as S
    for i in (job['ixs'] if 'ixs' in job else range(job['n'])):
        r = rng(job['seed'], i)
        lam, T = model(job, r)
        n = len(lam)
        if r.random() < .2:
            T *= 50
            rec.count('probe:long horizons')
        crash = r.random() < .3
        ctl = world.Control(rec, max_draws=300000, crash_at=int(r.integers(1, 12)) if crash else None,
                            crash_exc=world.SimKill if r.random() < .5 else world.SimCrash)
        ctl.extreme = (rng(job['seed'], i, 'x'), .4)
        ctl.extremes = (2. ** -53, 1e-12, 1e-6, 1 - 1e-6, 1 - 1e-12, 1 - 2. ** -53)
        ome = world.gen(derive(job['seed'], i, 'ome'), ctl)
        P = trans(lam, T)
        pairs = [(a, b) for a in range(n) for b in range(n) if P[a, b] > 1e-13]
        y0, yT = pairs[int(r.integers(len(pairs)))]
        path = S.Skeleton(*joint.jump_process(r, lam, T), T)
        cuts = np.sort(r.uniform(0, T, int(r.choice([0, 1, 3]))))
        pieces = S.partition_skeleton(path, cuts)
        before = [(p.t.copy(), p.xt.copy(), p.fin_t) for p in pieces]
        where = 'rates %s, horizon %r, ends %s' % (lam.tolist(), T, (y0, yT))
        try:
            with patience(10, NoProgress('no path within 10 s, ' + where)):
                a = S.sample_bridge(T, y0, yT, lam, ome)
            check_path(a, T, n, 'bridge, ' + where, lam)
            if a.xt[0] != y0 or a.xt[-1] != yT:
                raise Violation('wrong-end', 'bridge, %s: %s' % (where, a.xt))
            b = S.sample_backwards(T, yT, lam, ome)
            check_path(b, T, n, 'backwards, ' + where, lam)
            if b.xt[-1] != yT:
                raise Violation('wrong-end', 'backwards, %s: %s' % (where, b.xt))
            c = S.sample_forwards(T, y0, lam, ome)
            check_path(c, T, n, 'forwards, ' + where, lam)
            if c.xt[0] != y0:
                raise Violation('wrong-start', 'forwards, %s: %s' % (where, c.xt))
            d = S.paste_partition(S.mutate_partition(pieces, lam, ome))
            check_path(d, T, n, 'redraw, ' + where, lam)
            rec.log(i, len(a.t), len(b.t), len(c.t), len(d.t))
            rec.state('faults', n, len(cuts), min(len(a.t), 9), min(len(d.t), 9))
        except (world.SimCrash, world.SimKill):
            if not ctl.fired:
                raise
        for p, (t_, x_, f_) in zip(pieces, before):
            if not (np.array_equal(p.t, t_) and np.array_equal(p.xt, x_) and p.fin_t == f_):
                raise Violation('input-changed', where)
        rec.count('runs')


def shrink(job):
    if job['kind'] == 'faults':
        yield from ([] if 'ixs' in job else [dict(job, ixs=[i]) for i in range(job['n'])])
