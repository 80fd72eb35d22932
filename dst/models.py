"""Workload models: the shipped models, wrapped at their public assembly seam.

`assemble(name, wrap)` builds a model through `static.assemble_model` with the shipped
specification, each callback passed through `wrap(cb_name, fn)`; this is the seam a user of
the library has for a model of their own.
"""
import numpy as np

from dst.core import rng

SWITCHING = ('ou', 'ou2', 'ou3')


def module(name):
    import importlib
    if name == 'ito':
        return importlib.import_module('ctbayes.ito.models.ou')
    return importlib.import_module('ctbayes.switching.models.' + name)


ITO_CB = ['reduce', 'dereduce', 'dv_reduce', 'eval_drift', 'sx_eval_drift', 'dx_eval_drift',
          'eval_bounds_disc', 'eval_bounds_grad', 'eval_log_prior']
SW_CB = ['reduce', 'dereduce', 'dv_reduce', 'eval_drift', 'sx_eval_drift', 'dx_eval_drift', 'eval_vol',
         'eval_bounds_disc', 'eval_bounds_grad', 'eval_log_prior']


def logged(name, f):
    """The shipped model of x with observations v = exp(x): a user's model with a value transformation."""
    if name == 'reduce':
        return lambda vt: np.log(vt)
    if name == 'dereduce':
        return lambda xt: np.exp(xt)
    if name == 'dv_reduce':
        return lambda vt: 1 / np.asarray(vt)
    if name == 'eval_bounds_grad':
        return lambda a, b, fin_t, v0, v1, lo, hi: f(a, b, fin_t, np.log(v0), np.log(v1), lo, hi)
    return f


def assemble(name, wrap=None, init_thi=None, bounds_thi=None):
    """Returns the namespace of assembled functions; `name+log` is the log-transformed model."""
    wrap = wrap or (lambda n, f: f)
    if name.endswith('+log'):
        name, outer = name[:-4], wrap
        wrap = lambda n, f: outer(n, logged(n, f))      # noqa: E731
    m = module(name)
    init_thi = np.array(m.init_thi if init_thi is None else init_thi, float)
    if name == 'ito':
        from ctbayes.ito import static
        fs = static.assemble_model(init_thi, m.bounds_x, bounds_thi or m.bounds_thi, *[wrap(n, getattr(m, n)) for n in ITO_CB])
        names = ['eval_disc', 'eval_biased_log_lik', 'sample_aug', 'gen_normops', 'sample_sde',
                 'maximize_posterior', 'sample_posterior']
    else:
        from ctbayes.switching import static
        fs = static.assemble_model(init_thi, m.bounds_x, bounds_thi or m.bounds_thi, *[wrap(n, getattr(m, n)) for n in SW_CB])
        names = ['eval_disc', 'eval_biased_log_lik', 'sample_aug', 'gen_normops',
                 'maximize_posterior', 'sample_posterior']
    d = dict(zip(names, fs))
    d.update(init_thi=init_thi, bounds_thi=bounds_thi or m.bounds_thi, bounds_x=m.bounds_x,
             **{n: wrap(n, getattr(m, n)) for n in ('eval_log_prior', 'eval_bounds_disc')})
    return type('Assembled', (), {k: staticmethod(v) if callable(v) else v for k, v in d.items()})


def one_sided(c=4.):
    """A switching model assembled from user callbacks whose path functional charges only time spent above zero.

    Unit volatility in every regime, no boundary term; parameters are fixed by the prior."""
    from ctbayes.switching import static
    from toolz import curry

    def phi(x):
        return c * (np.asarray(x, float) > 0)

    def prior(thi):
        return 0. if np.all(np.asarray(thi) == 1) else -np.inf
    zero = lambda thi, y, x: np.zeros(np.shape(x))      # noqa: E731
    fs = static.assemble_model(
        np.array([1., 1.]), (-np.inf, np.inf), (np.array([0., 0.]), np.array([np.inf, np.inf])),
        lambda v: v, lambda x: x, lambda v: np.ones(np.shape(v)), lambda thi, y, x: np.sqrt(2 * phi(x)), zero, zero,
        lambda thi, y: np.ones(np.shape(y)), curry(lambda thi, y, lo, hi: (0., c * (lo > 0), c * (hi > 0) + 1e-9)),
        lambda *a: np.array([1., 1.]), prior)
    names = ['eval_disc', 'eval_biased_log_lik', 'sample_aug', 'gen_normops', 'maximize_posterior', 'sample_posterior']
    d = {n: staticmethod(f) for n, f in zip(names, fs)}
    d.update(phi=staticmethod(phi), top=c)
    return type('OneSided', (), d)


# closed form Ornstein-Uhlenbeck facts, independent of the code under test ------------------

def ou_coef(name, thi_row):
    """(mean reversion, volatility) of a parameter row under each parametrization."""
    a, b = float(thi_row[0]), float(thi_row[1])
    if name == 'ito':
        return a, b
    if name == 'ou':
        return a, 1 / b
    if name == 'ou2':
        return a, a / b
    if name == 'ou3':
        return a * b, a
    raise KeyError(name)


def ou_trans(bet, sig, dt, v0):
    m = np.exp(-bet * dt)
    return v0 * m, sig * np.sqrt(-np.expm1(-2 * bet * dt) / (2 * bet))


def data_set(kind, n, r, scale=1.0):
    """Observation times starting at zero and values; r is a numpy Generator."""
    if kind == 'even':
        t = np.arange(n) * scale / max(n - 1, 1)
    elif kind == 'decimal':
        t = np.cumsum(np.append(0, r.choice([.1, .2, .3, .7, 1 / 3], n - 1))) * scale
    elif kind == 'clustered':
        t = np.cumsum(np.append(0, np.exp(r.uniform(-6, 0, n - 1)))) * scale
    elif kind == 'uniform':
        t = np.append(0, np.sort(r.uniform(0, scale, n - 1)))
        t = np.cumsum(np.append(0, np.maximum(np.diff(t), 1e-4 * scale)))
    else:
        raise KeyError(kind)
    dv = r.normal(size=n) * np.sqrt(np.append(1.0, np.diff(t)))
    return t, np.cumsum(dv) * .7


def plain(o):
    """Copy of nested results as plain containers (severs aliasing)."""
    if isinstance(o, np.ndarray):
        return np.array(o)
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    return o


__all__ = ['module', 'assemble', 'ou_coef', 'ou_trans', 'data_set', 'rng', 'plain']
