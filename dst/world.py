"""Seams owned by the simulator.

* SimGenerator - the injected numpy generator: counts draws (the simulated clock of a run),
  crashes at a chosen draw, and can serve rare but legal uniforms.
* default generators - every argument-less `np.random.default_rng()` made while importing the
  code under test is handed out by the world and reseeded per run (tripwires for leaks).
* process-wide random state - scrambled before each task and between consumer steps.
* joblib - the pool backends are replaced by SimBackend: tasks queue up, are serialized as for
  a worker process, run in a seeded order on virtual workers, and may be killed.
"""
import random

import cloudpickle
import joblib.parallel as jp
import numpy as np
from joblib._parallel_backends import ParallelBackendBase

from dst.core import NoProgress, derive, rng

REAL_DEFAULT_RNG = np.random.default_rng
DEFAULTS = []          # generators created at import time by the code under test
ACTIVE = None          # the active Control, if any

METHODS = ['uniform', 'random', 'normal', 'standard_normal', 'exponential', 'standard_exponential', 'poisson',
           'beta', 'gamma', 'standard_gamma', 'chisquare', 'choice', 'wald', 'integers', 'multivariate_normal',
           'lognormal', 'multinomial', 'binomial', 'geometric', 'permutation', 'shuffle', 'bytes', 'dirichlet',
           'gumbel', 'laplace', 'logistic', 'triangular', 'permuted', 'spawn']


class SimCrash(Exception):
    """An injected failure (worker killed, callback failed, allocation failed)."""


class SimKill(BaseException):
    """An injected failure that `except Exception` must not swallow (process kill, interrupt)."""


_by_ref = {}


def _same_object(key):
    return _by_ref[key]


class ByReference:
    """Parts of the simulator reachable from serialized tasks stay single objects."""

    def __reduce__(self):
        _by_ref[id(self)] = self
        return _same_object, (id(self),)


class Control(ByReference):
    """Counts and faults shared by the generators of one simulated run."""

    def __init__(self, rec=None, max_draws=None, crash_at=None, crash_exc=SimCrash, extreme=None, children=True):
        self.rec, self.max_draws, self.crash_at, self.crash_exc = rec, max_draws, crash_at, crash_exc
        self.draws = 0
        self.fired = False
        self.children = children
        self.extreme = extreme          # (rng, probability) of serving an extreme uniform
        self.extremes = EXTREMES

    def tick(self, name):
        self.draws += 1
        if self.rec is not None:
            self.rec.counts['steps'] += 1
        if self.crash_at is not None and self.draws == self.crash_at:
            self.fired = True
            if self.rec is not None:
                self.rec.count('fault:crash at random draw')
            raise self.crash_exc('injected at draw %d (%s)' % (self.draws, name))
        if self.max_draws is not None and self.draws > self.max_draws:
            raise NoProgress('more than %d random draws without an answer' % self.max_draws)

    def install(self):
        global ACTIVE
        ACTIVE = self
        return self


class SimGenerator(np.random.Generator):

    def __init__(self, bitgen, ctl=None):
        super().__init__(bitgen)
        self._ctl = ctl if ctl is not None else ACTIVE

    def __reduce__(self):
        return SimGenerator, (self.bit_generator, self._ctl)


def _wrap(name):
    base = getattr(np.random.Generator, name)

    def f(self, *a, **k):
        ctl = self._ctl
        if ctl is not None:
            ctl.tick(name)
            if ctl.extreme is not None and name == 'uniform':
                return _extreme_uniform(base, ctl, self, *a, **k)
        return base(self, *a, **k)
    f.__name__ = name
    return f


EXTREMES = (1e-9, 1e-6, 1e-3, .5, 1 - 1e-3, 1 - 1e-6, 1 - 1e-9)


def _extreme_uniform(base, ctl, gen, low=0.0, high=1.0, size=None):
    x = base(gen, low, high, size)
    r, p = ctl.extreme
    if r.random() >= p:
        return x
    if ctl.rec is not None:
        ctl.rec.count('fault:extreme uniform')
    e = ctl.extremes[int(r.integers(len(ctl.extremes)))]
    lo, hi = np.broadcast_arrays(np.asarray(low, float), np.asarray(high, float))
    if np.ndim(x) == 0:
        return float(lo + (hi - lo) * e)
    x = np.array(x)
    k = int(r.integers(x.size)) if x.size else None
    if k is not None:
        lo_, hi_ = np.broadcast_to(lo, x.shape).ravel()[k], np.broadcast_to(hi, x.shape).ravel()[k]
        x.ravel()[k] = lo_ + (hi_ - lo_) * e
    return x


for _m in METHODS:
    if hasattr(np.random.Generator, _m):
        setattr(SimGenerator, _m, _wrap(_m))


def gen(seed, ctl=None, kind='PCG64'):
    """The caller's generator for a run."""
    bg = getattr(np.random, kind)(seed)
    return SimGenerator(bg, ctl) if ctl is not None else np.random.Generator(bg)


def _default_rng(seed=None):
    if isinstance(seed, np.random.Generator):
        return seed
    if seed is None and not BOOTED:
        g = np.random.Generator(np.random.PCG64(derive('default', len(DEFAULTS))))
        DEFAULTS.append(g)
        return g
    if seed is None:
        # run-time fresh entropy would be a leak of ambient randomness: serve it from ambient state
        return np.random.Generator(np.random.PCG64(int(np.random.randint(1 << 31))))
    g = REAL_DEFAULT_RNG(seed)
    if ACTIVE is not None and ACTIVE.children:
        return SimGenerator(g.bit_generator, ACTIVE)
    return g


def _minimize(fun, x0, *a, **k):
    """Stands in for scipy's optimizer; a run may observe or replace the call."""
    return REAL_MINIMIZE(fun, x0, *a, **k) if OPT_HOOK is None else OPT_HOOK(REAL_MINIMIZE, fun, x0, *a, **k)


BOOTED = False
OPT_HOOK = None
REAL_MINIMIZE = None


def hook_optimizer(f):
    global OPT_HOOK
    OPT_HOOK = f


def boot():
    """Import the code under test with the seams in place."""
    global BOOTED, REAL_MINIMIZE
    if BOOTED:
        return
    import scipy.optimize
    REAL_MINIMIZE = scipy.optimize.minimize
    scipy.optimize.minimize = _minimize
    np.random.default_rng = _default_rng
    import ctbayes.ea3lib.seed, ctbayes.ea3lib.skeleton                             # noqa
    import ctbayes.ito.models.ou, ctbayes.ito.models.cir, ctbayes.switching.models.ou                       # noqa
    import ctbayes.switching.models.ou2, ctbayes.switching.models.ou3               # noqa
    import ctbayes.misc.adapt, ctbayes.misc.ars, ctbayes.misc.bfactories            # noqa
    import ctbayes.mjplib.inference, ctbayes.mjplib.skeleton                        # noqa
    import ctbayes.ito.mcem, ctbayes.ito.mcmc, ctbayes.switching.mcem, ctbayes.switching.mcmc   # noqa
    BOOTED = True


def ambient(seed):
    """Set every source of process-wide randomness from one integer."""
    np.random.seed(seed & 0xffffffff)
    random.seed(seed)
    for i, g in enumerate(DEFAULTS):
        g.bit_generator.state = np.random.PCG64(derive(seed, i)).state


def reset(seed):
    uninstall()
    ambient(seed)


def uninstall():
    global ACTIVE, OPT_HOOK
    ACTIVE = OPT_HOOK = None
    SCHED.__init__()
    _by_ref.clear()


# --------------------------------------------------------------------------- worker pool

class Scheduler(ByReference):
    """Decides order, placement, serialization and faults of pool tasks for one run."""

    def __init__(self, seed=None, serialize=True, order='random', scramble=True, crash_task=None,
                 crash_exc=SimCrash, rec=None, crash_after=False):
        self.rng = rng('sched', seed) if seed is not None else rng('sched')
        self.serialize, self.order, self.scramble = serialize, order, scramble
        self.crash_task, self.crash_exc, self.crash_after = crash_task, crash_exc, crash_after
        self.rec = rec
        self.n_tasks = 0
        self.trace = []
        self.fired = False

    def install(self):
        global SCHED
        SCHED = self
        return self


SCHED = Scheduler()


class Job:
    def __init__(self, backend, func, callback):
        self.backend, self.callback = backend, callback
        self.payload = cloudpickle.dumps(func) if SCHED.serialize else func
        self.done, self.value, self.exc = False, None, None

    def execute(self):
        s = SCHED
        s.n_tasks += 1
        if s.rec is not None:
            s.rec.count('tasks')
        try:
            if s.crash_task is not None and s.n_tasks == s.crash_task and not s.crash_after:
                s.fired = True
                raise s.crash_exc('worker killed before task %d' % s.n_tasks)
            if s.scramble:
                ambient(derive('task', s.n_tasks, s.rng.integers(1 << 40)))
                if s.rec is not None:
                    s.rec.count('fault:ambient state scrambled in worker')
            f = cloudpickle.loads(self.payload) if s.serialize else self.payload
            v = f()
            if s.serialize:
                v = cloudpickle.loads(cloudpickle.dumps(v))
            if s.crash_task is not None and s.n_tasks == s.crash_task and s.crash_after:
                s.fired = True
                raise s.crash_exc('worker killed after task %d, result lost' % s.n_tasks)
            self.value = v
        except BaseException as e:      # noqa: carried to the consumer like a pool would
            self.exc = e
            if s.fired and s.rec is not None and isinstance(e, s.crash_exc):
                s.rec.count('fault:worker killed')
        self.done = True
        if self.exc is None and self.callback is not None:
            self.callback(self.value)

    def get(self, timeout=None):
        self.backend.run_until(self)
        if self.exc is not None:
            raise self.exc
        return self.value


class SimBackend(ParallelBackendBase):
    """Virtual workers: queued tasks finish in the order the scheduler decides."""
    supports_inner_max_num_threads = False

    def __init__(self, *a, **k):
        super().__init__(nesting_level=k.get('nesting_level', 0))
        self.queue = []
        self.n = 1

    def effective_n_jobs(self, n_jobs):
        n_jobs = 1 if n_jobs is None else n_jobs
        return max(1, n_jobs if n_jobs > 0 else 9 + n_jobs)

    def configure(self, n_jobs=1, parallel=None, prefer=None, require=None, **kw):
        self.parallel = parallel
        self.n = self.effective_n_jobs(n_jobs)
        return self.n

    def apply_async(self, func, callback=None):
        j = Job(self, func, callback)
        self.queue.append(j)
        return j

    def run_until(self, job):
        while not job.done:
            # a worker can only hold one of the first n queued tasks
            window = min(self.n, len(self.queue))
            if SCHED.order == 'fifo':
                k = 0
            elif SCHED.order == 'lifo':
                k = window - 1
            else:
                k = int(SCHED.rng.integers(window))
            if SCHED.rec is not None and k:
                SCHED.rec.count('fault:task overtook an earlier one')
            SCHED.trace.append(k)
            self.queue.pop(k).execute()

    def abort_everything(self, ensure_ready=True):
        self.queue = []

    def terminate(self):
        self.queue = []


for _b in ('loky', 'multiprocessing', 'threading'):
    jp.BACKENDS[_b] = SimBackend
