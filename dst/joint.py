"""Exact simulation of (parameters, regimes, data, unobserved path) from prior and model.

Written from the textbook description of the shipped Ornstein-Uhlenbeck models, independent of
the updates under test: exact transitions, first-principles jump processes, and thinning of
freshly drawn seeds for the conditioned path.  A seed accepted here carries a conditioned path
of the model: given what it has revealed, the rest is a Brownian bridge.
"""
import numpy as np
from scipy.special import ndtr

from dst.models import ou_coef, ou_trans


class TooHard(Exception):
    """The reference sampler gave up; the sample is skipped (rare, counted, bounded by the check)."""


def disc_inf_free(bet, sig, v):
    """(drift^2 + drift' )/2 minus its infimum, in reduced coordinates."""
    return (bet * np.asarray(v) / sig) ** 2 / 2


def accept_path(z, normops, scale, bet, sig, seed_mod, r, ome):
    """Thinning of one seed; returns the revealed seed or None.  `scale` maps x back to v."""
    return thin_path(z, normops, lambda x: disc_inf_free(bet, sig, np.asarray(x) * scale),
                     lambda lo, hi: float(disc_inf_free(bet, sig, max(abs(lo), abs(hi)) * scale)), seed_mod, r, ome)


def thin_path(z, normops, excess, ceiling, seed_mod, r, ome):
    """Thinning of one seed by a nonnegative functional with a known ceiling on intervals."""
    norm, denorm = normops
    lo, hi = min(z.tight_z, z.loose_z), max(z.tight_z, z.loose_z)
    t, xa = denorm(np.array([0., 1.]), np.array([lo, lo]))
    _, xb = denorm(np.array([0., 1.]), np.array([hi, hi]))
    top = ceiling(min(np.min(xa), np.min(xb)), max(np.max(xa), np.max(xb)))
    fin_t = float(t[-1])
    n = r.poisson(top * fin_t)
    if n > 200000:
        return None         # only reached for astronomically unlikely acceptances
    tt, mark = r.uniform(0, fin_t, n), r.uniform(0, top, n)
    k = 0
    while k < n:
        m = min(n - k, 3)
        s = np.sort(tt[k:k + m])
        z, x = seed_mod.interpolate_seed(z, s, norm, denorm, ome)
        # marks are exchangeable, so pairing them with sorted times keeps the law
        if np.any(excess(x) > mark[k:k + m]):
            return None
        k += m
    return z


def bridge_pit(bet, sig, a, b, va, vb, ts, vs):
    """Sequential uniforms of an OU bridge observed at increasing times ts in (a, b)."""
    u, s0, v0 = [], a, va
    for s, v in zip(ts, vs):
        m1, sd1 = ou_trans(bet, sig, s - s0, v0)
        e = np.exp(-bet * (b - s))
        _, sd2 = ou_trans(bet, sig, b - s, 0)
        var = 1 / (1 / sd1 ** 2 + e ** 2 / sd2 ** 2)
        mean = var * (m1 / sd1 ** 2 + e * vb / sd2 ** 2)
        u.append(ndtr((v - mean) / np.sqrt(var)))
        s0, v0 = s, v
    return u


def chain_pit(coef, dt, v):
    """Sequential uniforms of the inner values of a chain of OU stretches pinned at both ends."""
    steps = [(np.exp(-bet * h), ou_trans(bet, sig, h, 0)[1] ** 2) for (bet, sig), h in zip(coef, dt)]
    u = []
    for k in range(len(dt) - 1):
        e, s2 = 1., 0.          # from the next value to the end
        for g, q in steps[k + 1:]:
            e, s2 = e * g, s2 * g ** 2 + q
        g, q = steps[k]
        var = 1 / (1 / q + e ** 2 / s2)
        mean = var * (g * v[k] / q + e * v[-1] / s2)
        u.append(ndtr((v[k + 1] - mean) / np.sqrt(var)))
    return u


def prior_thi(r, mu=(0., 0.), sd=(1., .5)):
    return np.exp(np.asarray(mu) + np.asarray(sd) * r.standard_normal(2))


def ito_joint(t, v0, thi, sample_aug, gen_normops, seed_mod, r, ome, max_tries=4000):
    """Data and path seeds for the plain diffusion."""
    bet, sig = ou_coef('ito', thi)
    vt = [v0]
    for dt in np.diff(t):
        m, sd = ou_trans(bet, sig, dt, vt[-1])
        vt.append(r.normal(m, sd))
    vt = np.array(vt)
    return vt, ito_paths(t, vt, thi, sample_aug, gen_normops, seed_mod, r, ome, max_tries)


def ito_paths(t, vt, thi, sample_aug, gen_normops, seed_mod, r, ome, max_tries=4000):
    bet, sig = ou_coef('ito', thi)
    z = []
    for i in range(len(t) - 1):
        tt, vv = t[i:i + 2] - t[i], vt[i:i + 2]
        ops = gen_normops(thi, tt, vv)[0]
        for _ in range(max_tries):
            z_ = accept_path(sample_aug(thi, tt, vv, ome)[0], ops, sig, bet, sig, seed_mod, r, ome)
            if z_ is not None:
                break
        else:
            raise TooHard
        z.append(z_)
    return z


def jump_process(r, lam, fin_t, y0=None):
    """Jump times (starting at zero) and states."""
    n = lam.shape[0]
    y = int(r.integers(n)) if y0 is None else y0
    t, out_t, out_y = 0.0, [0.0], [y]
    while True:
        rates = lam[y].copy()
        rates[y] = 0
        tot = rates.sum()
        if tot <= 0:
            break
        t += r.exponential(1 / tot)
        if t >= fin_t:
            break
        y = int(np.searchsorted(np.cumsum(rates) / tot, r.random(), side='right'))
        out_t.append(t)
        out_y.append(y)
    return np.array(out_t), np.array(out_y)


def switching_joint(name, t, v0, lam, thi, gen_normops, seed_mod, bounds_x, types_mod, mjp_mod, r, ome,
                    max_tries=4000, regimes=None):
    """Regimes, anchors (jumps and observations), data and path seeds of the switching diffusion."""
    jt, jy = jump_process(r, lam, t[-1]) if regimes is None else regimes
    tt = np.sort(np.append(jt[1:], t))
    yt = jy[np.searchsorted(jt, tt, side='right') - 1]
    vt = [v0]
    for i, dt in enumerate(np.diff(tt)):
        bet, sig = ou_coef(name, thi[yt[i]])
        m, sd = ou_trans(bet, sig, dt, vt[-1])
        vt.append(r.normal(m, sd))
    vt = np.array(vt)
    h = types_mod.Anchorage(tt, yt, vt)
    z = []
    for i, ops in enumerate(gen_normops(thi, tt, yt, vt)):
        bet, sig = ou_coef(name, thi[yt[i]])
        for _ in range(max_tries):
            z_ = accept_path(seed_mod.sample_raw_seed(bounds_x, *ops, ome), ops, 1.0, bet, sig, seed_mod, r, ome)
            if z_ is not None:
                break
        else:
            raise TooHard
        z.append(z_)
    obs = vt[np.isin(tt, t)]
    return mjp_mod.Skeleton(jt, jy, t[-1]), h, obs, z


def rates(r, n, a0, b0):
    lam = r.gamma(a0, 1 / b0, (n, n))
    np.fill_diagonal(lam, 0)
    np.fill_diagonal(lam, -lam.sum(1))
    return lam
