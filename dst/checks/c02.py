"""C02: a chain resumed from a serialized checkpoint repeats exactly; failures lose only the step in flight."""
import copy
import gc
import pickle

import cloudpickle
import numpy as np

from dst import models, world
from dst.core import Violation, derive, digest, drop_each, rng

INFO = dict(
    level='exploration', slow_ok=.02,
    rule='a run executes a chain once without interruption and once under a seeded sequence of crashes (at a random '
         'draw, model callback or worker task, before or after it ran), closed and dropped streams, where only the '
         'serialized checkpoint of an earlier step survives; non-trivial when at least one fault fired; states = '
         'digests of (model, fault kinds fired, step and checkpoint where they fired)',
    real='ctbayes.switching, ctbayes.ito (mcmc, mcem), ea3lib, sdelib, mjplib, misc; joblib dispatch, pickle',
    stubs='joblib process pool replaced by seeded virtual workers',
    assumptions=['the checkpoint holds parameters, rates, paths, samplers and generator, as the resume interface asks'])

FAULTS = ['draw', 'callback', 'task', 'task lost', 'close', 'drop']


def plan(tier, seed):
    n = 220 if tier == 'quick' else 4000
    jobs = []
    for i in range(n):
        r = rng('C02', seed, i)
        steps = int(r.integers(3, 9))
        jobs.append({
            'seed': derive('C02', seed, i),
            'model': ['ou', 'ou2', 'ou3', 'ou', 'ou2', 'ou3', 'ito', 'ito_em', 'ou:em'][i % 9],
            'data': str(r.choice(['even', 'decimal', 'uniform', 'clustered'])), 'n_obs': int(r.choice([2, 3, 4, 7])),
            'regimes': int(r.choice([2, 3])), 'steps': steps, 'every': int(r.choice([1, 1, 2, 3])),
            'faults': [[str(r.choice(FAULTS)), int(r.integers(1, 60)) if r.random() < .5 else int(r.integers(1, 2000)),
                        bool(r.random() < .3)] for _ in range(int(r.integers(1, 7)))],
            'precoin': bool(r.random() < .5), 'batch': int(r.choice([1, 2, 10])),
            'portkey': float(r.choice([.01, .01, .3])), 'cores': int(r.choice([1, 2, 3])),
            'copy': str(r.choice(['pickle', 'pickle', 'cloudpickle', 'deepcopy', 'protocol 2'])),
            'gen': str(r.choice(['PCG64', 'PCG64', 'Philox', 'MT19937', 'SFC64']))})
    return jobs


COPY = {'pickle': lambda o: pickle.dumps(o), 'cloudpickle': lambda o: cloudpickle.dumps(o),
        'protocol 2': lambda o: pickle.dumps(o, 2), 'deepcopy': lambda o: copy.deepcopy(o)}


class Callbacks(world.ByReference):
    """Counts model callbacks and fails at a chosen one."""

    def __init__(self, rec):
        self.n, self.at, self.exc, self.rec, self.fired = 0, None, None, rec, False

    def wrap(self, name, f):
        if not callable(f):
            return f

        def g(*a, **k):
            self.n += 1
            if self.at is not None and self.n >= self.at:
                self.at, self.fired = None, True
                self.rec.count('fault:model callback failed')
                raise self.exc('injected in callback %d (%s)' % (self.n, name))
            return f(*a, **k)
        return g


class Vault:
    """Everything handed out must keep its value."""

    def __init__(self):
        self.items = []

    def put(self, what, obj):
        self.items.append((what, obj, digest(obj)))

    def audit(self, when):
        for what, obj, d in self.items:
            if digest(obj) != d:
                raise Violation('draw-altered', '%s changed %s' % (what, when))


def fresh_state(job, mod, t, vt):
    from ctbayes.misc.adapt import MyopicMjpSampler, MyopicMvRwSampler
    from ctbayes.mjplib import skeleton as mjp_skel
    r = rng(job['seed'], 'init')
    k = job['regimes']
    base = models.module(job['model'])
    lam = r.gamma(2., .5, (k, k)) / t[-1]
    np.fill_diagonal(lam, 0)
    np.fill_diagonal(lam, -lam.sum(1))
    ome = world.gen(job['seed'] & 0xffffffff, kind=job['gen'])
    thi = np.array([np.array(base.init_thi) * np.exp(.3 * r.normal(size=2)) for _ in range(k)])
    y = mjp_skel.sample_forwards(t[-1], None, lam, ome)
    z, h = mod.sample_aug(thi, y, t, vt, ome)
    return {'thi': thi, 'lam': lam, 'z': z, 'h': h,
            'param_samplers': [MyopicMvRwSampler(thi[i], base.bounds_thi, .2) for i in range(k)],
            'regime_sampler': MyopicMjpSampler(y, .2), 'ome': ome}


def load(blob):
    return pickle.loads(blob) if isinstance(blob, bytes) else copy.deepcopy(blob)


def snap(job, state, draw):
    if draw is not None:
        state = dict(state, thi=draw[0], lam=draw[1], z=draw[2], h=draw[3])
    return COPY[job['copy']](state)


def run(job, rec):
    if job['model'] in ('ito', 'ito_em', 'ou:em'):
        return fragile(job, rec)
    cb = Callbacks(rec)
    mod = models.assemble(job['model'], cb.wrap)
    t, vt = models.data_set(job['data'], job['n_obs'], rng(job['seed'], 'data'))
    t_in, vt_in = t.copy(), vt.copy()
    ctrl = dict(precoin=job['precoin'], ea_batch_size=job['batch'], pr_portkey=job['portkey'])

    def start(state, cores):
        return mod.sample_posterior(t, vt, job['regimes'], state=state, n_cores=cores, **ctrl)

    first = pickle.dumps(fresh_state(job, mod, t, vt))
    # uninterrupted chain
    world.reset(derive(job['seed'], 'ref'))
    it = start(pickle.loads(first), 1)
    ref = [digest(next(it)) for _ in range(job['steps'])]

    # the chain under faults
    vault = Vault()
    faults = list(job['faults'])
    blob, at = first, 0                   # surviving checkpoint: state after `at` steps
    seen = {}
    r = rng(job['seed'], 'faults')
    attempt = 0
    while at < job['steps']:
        attempt += 1
        kind, num, kill = faults.pop(0) if faults else (None, 0, False)
        exc = world.SimKill if kill else world.SimCrash
        world.reset(derive(job['seed'], 'attempt', attempt))      # a new process: nothing ambient survives
        ctl = world.Control(rec, crash_at=num if kind == 'draw' else None, crash_exc=exc).install()
        sched = world.Scheduler(seed=derive(job['seed'], attempt), serialize=job['cores'] > 1, rec=rec, crash_exc=exc,
                                crash_task=1 + num % 40 if kind in ('task', 'task lost') else None,
                                crash_after=kind == 'task lost').install()
        state = load(blob)
        vault.put('the checkpointed draw', [state[k] for k in ('thi', 'lam', 'z', 'h')])
        if ctl.crash_at is not None:
            g = world.SimGenerator(state['ome'].bit_generator, ctl)
            state['ome'] = g
        cb.n, cb.at, cb.exc = 0, num * 3 if kind == 'callback' else None, exc
        it = start(state, job['cores'])
        stop = at + 1 + num % 4 if kind in ('close', 'drop') else None
        k = at
        try:
            while k < job['steps'] and k != stop:
                draw = next(it)
                d = digest(draw)
                rec.count('steps')
                if d != ref[k]:
                    raise Violation('history-differs', 'step %d of %d, resumed at step %d: the draw is not that of the '
                                    'uninterrupted chain' % (k + 1, job['steps'], at))
                if seen.setdefault(k, d) != d:
                    raise Violation('history-differs', 'step %d was handed out twice with different values' % (k + 1))
                vault.put('the draw of step %d' % (k + 1), draw)
                k += 1
                vault.audit('by step %d' % k)
                if k % job['every'] == 0:
                    saved = dict(state)
                    if isinstance(saved['ome'], world.SimGenerator):
                        saved['ome'] = np.random.Generator(saved['ome'].bit_generator)
                    blob, at = snap(job, saved, draw), k
                    rec.count('probe:checkpoints')
        except exc as e:
            rec.count('probe:crashes survived')
            rec.state(job['model'], kind, k, at, job['every'])
            del e
        if stop is not None and k == stop:
            rec.count('fault:stream closed' if kind == 'close' else 'fault:stream dropped')
            if kind == 'close':
                it.close()
            rec.state(job['model'], kind, k, at)
        it = None
        if attempt % 3 == 0:
            gc.collect(0)
        vault.audit('by a failure during step %d' % (k + 1))
        if k >= job['steps']:
            at = k
        rec.log(attempt, kind, num, k, at, sched.trace[:20])
    if np.any(t != t_in) or np.any(vt != vt_in):
        raise Violation('data-altered')
    rec.count('runs')
    rec.count('sim_time', float(t[-1]) * job['steps'])


def fragile(job, rec):
    """Streams without a resume interface: draws handed out survive later steps and failures."""
    cb = Callbacks(rec)
    mod = models.assemble(job['model'].split(':')[0].split('_')[0], cb.wrap)
    t, vt = models.data_set(job['data'], job['n_obs'], rng(job['seed'], 'data'))
    t_in, vt_in = t.copy(), vt.copy()
    vault, ref = Vault(), []
    for a, (kind, num, kill) in enumerate([(None, 0, False)] + job['faults']):
        exc = world.SimKill if kill else world.SimCrash
        world.reset(derive(job['seed'], 'attempt', a))
        ctl = world.Control(rec, crash_at=num if kind == 'draw' else None, crash_exc=exc).install()
        world.Scheduler(seed=derive(job['seed'], a), serialize=job['cores'] > 1, rec=rec, crash_exc=exc,
                        crash_task=1 + num % 40 if kind in ('task', 'task lost') else None,
                        crash_after=kind == 'task lost').install()
        ome = world.gen(job['seed'] & 0xffffffff, ctl if kind == 'draw' else None, kind=job['gen'])
        cb.n, cb.at, cb.exc = 0, num * 3 if kind == 'callback' else None, exc
        if job['model'] == 'ito':
            it = mod.sample_posterior(t, vt, ome=ome, n_cores=job['cores'], precoin=job['precoin'],
                                      ea_batch_size=job['batch'], pr_portkey=job['portkey'])
        elif job['model'] == 'ito_em':
            it = mod.maximize_posterior(t, vt, ome=ome, n_cores=job['cores'])
        else:
            it = mod.maximize_posterior(t, vt, job['regimes'], ome=ome, n_cores=job['cores'])
        k, out = 0, []
        try:
            while k < min(job['steps'], 4 if job['model'] != 'ito' else 9):
                d = next(it, None)
                if d is None:
                    break
                vault.put('item %d' % (k + 1), d)
                out.append(digest(d))
                k += 1
                rec.count('steps')
                vault.audit('by step %d' % k)
        except exc:
            rec.state(job['model'], kind, k)
            rec.count('probe:crashes survived')
        vault.audit('by a failure during step %d' % (k + 1))
        if kind is None:
            ref = out
        elif out != ref[:len(out)]:
            raise Violation('history-differs', 'items before a failure differ from those of the uninterrupted stream')
        rec.log(a, kind, num, k)
    if np.any(t != t_in) or np.any(vt != vt_in):
        raise Violation('data-altered')
    rec.count('runs')


def shrink(job):
    for f in drop_each(job['faults']):
        yield dict(job, faults=f)
    if job['steps'] > 1:
        yield dict(job, steps=job['steps'] - 1)
    if job['cores'] > 1:
        yield dict(job, cores=1)
    if job['n_obs'] > 2:
        yield dict(job, n_obs=2)
    for f in range(len(job['faults'])):
        k, n, b = job['faults'][f]
        if n > 1:
            yield dict(job, faults=job['faults'][:f] + [[k, n // 2, b]] + job['faults'][f + 1:])
