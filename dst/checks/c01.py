"""C01: histories are functions of data, settings and the caller's generator alone."""
import numpy as np

from dst import models, world
from dst.core import Violation, derive, digest, rng, drop_each

INFO = dict(
    level='exploration', slow_ok=.02,
    rule='a run executes one stream twice: in the reference world and in a perturbed world (task order, core count, '
         'serialized workers, scrambled process-wide and import-time generators, generator restored from its bare '
         'state, other streams interleaved); non-trivial when at least one perturbation fired; states = digests of '
         '(stream kind, perturbation, history)',
    real='ctbayes (all modules), joblib.Parallel dispatch and collection, cloudpickle serialization',
    stubs='joblib process pool replaced by seeded virtual workers',
    assumptions=['streams given separate generators', 'worker processes run the same library versions'])

STREAMS = ['sw_post:ou', 'sw_post:ou2', 'sw_post:ou3', 'ito_post', 'sw_em:ou', 'sw_em:ou2', 'ito_em', 'sde', 'sde_br']


def plan(tier, seed):
    n = 120 if tier == 'quick' else 1500
    jobs = []
    for i in range(n):
        r = rng('C01', seed, i)
        kind = STREAMS[i % len(STREAMS)]
        # a swarm of perturbations; every one on its own regularly
        allp = ['ambient', 'defaults', 'bare', 'order', 'serialize', 'cores', 'interleave', 'other_use']
        if r.random() < .35:
            perts = [allp[int(r.integers(len(allp)))]]
        else:
            perts = [p for p in allp if r.random() < .5] or ['ambient']
        jobs.append({'seed': derive('C01', seed, i), 'stream': kind, 'perts': perts,
                     'n': int(r.integers(2, 5)), 'data': str(r.choice(['even', 'decimal', 'uniform'])),
                     'n_obs': int(r.choice([2, 3, 4, 7])), 'regimes': int(r.choice([2, 3])),
                     'precoin': bool(r.random() < .5), 'batch': int(r.choice([1, 2, 10])),
                     'portkey': float(r.choice([0.0, .01, .3])),
                     'gen': str(r.choice(['PCG64', 'PCG64', 'Philox', 'MT19937', 'SFC64'])),
                     'cores': int(r.choice([2, 3, 5])), 'order': str(r.choice(['random', 'lifo', 'fifo']))})
    return jobs


def make(job, ome, n_cores):
    r = rng('C01data', job['seed'])
    t, vt = models.data_set(job['data'], job['n_obs'], r)
    k = job['stream'].split(':')
    if k[0] == 'sw_post':
        return models.module(k[1]).sample_posterior(t, vt, job['regimes'], ome=ome, n_cores=n_cores,
                                                    precoin=job['precoin'], ea_batch_size=job['batch'],
                                                    pr_portkey=max(job['portkey'], .01))
    if k[0] == 'ito_post':
        return models.module('ito').sample_posterior(t, vt, ome=ome, n_cores=n_cores, precoin=job['precoin'],
                                                     ea_batch_size=job['batch'], pr_portkey=max(job['portkey'], .01))
    if k[0] == 'sw_em':
        return models.module(k[1]).maximize_posterior(t, vt, job['regimes'], ome=ome, n_cores=n_cores)
    if k[0] == 'ito_em':
        return models.module('ito').maximize_posterior(t, vt, ome=ome, n_cores=n_cores)
    thi = np.array([.3 + r.random(), .5 + r.random()])
    q = np.sort(r.uniform(.05, .95, 4))
    return models.module('ito').sample_sde(thi, q, 1.0, float(vt[0]),
                                           float(vt[1]) if k[0] == 'sde_br' else None, ome=ome)


def gen_of(job, bare):
    g = world.gen(job['seed'] & 0xffffffff, kind=job['gen'])
    if bare:
        g2 = world.gen(12345, kind=job['gen'])
        g2.bit_generator.state = g.bit_generator.state
        return g2
    return g


def take(it, n, pace=None):
    out = []
    for i in range(n):
        if pace is not None:
            pace(i)
        try:
            out.append(next(it))
        except StopIteration:
            out.append('end')
            break
    return out


def run(job, rec):
    n = job['n'] * (3 if job['stream'].startswith('sde') else 1)
    # reference world
    world.reset(derive(job['seed'], 'ref'))
    ref = take(make(job, gen_of(job, False), 1), n)
    # perturbed world
    P = set(job['perts'])
    world.reset(derive(job['seed'], 'ref'))
    cores = job['cores'] if P & {'cores', 'order', 'serialize'} else 1
    world.Scheduler(seed=job['seed'], serialize='serialize' in P, order=job['order'] if 'order' in P else 'fifo',
                    scramble='ambient' in P, rec=rec).install()
    if 'ambient' in P:
        np.random.seed(derive(job['seed'], 'amb') & 0xffffffff)
        rec.count('fault:ambient state differs')
    if 'defaults' in P:
        rec.count('fault:import-time generators differ')
        for i, g in enumerate(world.DEFAULTS):
            g.bit_generator.state = np.random.PCG64(derive(job['seed'], 'def', i)).state
    if 'bare' in P:
        rec.count('fault:generator restored from bare state')
    others = []
    if 'interleave' in P:
        for k in range(2):
            j2 = dict(job, stream=STREAMS[(job['seed'] + k) % len(STREAMS)], seed=derive(job['seed'], 'other', k))
            others.append((j2, make(j2, gen_of(j2, False), 1)))
        others.append((None, make(job, gen_of(dict(job, seed=derive(job['seed'], 'twin')), False), 1)))
        rec.count('fault:other streams interleaved')
    pr = rng('C01pace', job['seed'])

    def pace(i):
        if 'other_use' in P:
            np.random.normal(size=int(pr.integers(1, 5)))
            rec.count('fault:ambient draws between steps')
        for _, it in others:
            if pr.random() < .7:
                next(it, None)

    got = take(make(job, gen_of(job, 'bare' in P), cores), n, pace)
    rec.count('runs', 2)
    rec.count('steps', len(ref) + len(got))
    rec.count('probe:tasks on virtual workers', world.SCHED.n_tasks)
    rec.log(job['stream'], sorted(P), digest(ref), world.SCHED.trace)
    rec.state(job['stream'], sorted(P), digest(ref), world.SCHED.trace)
    if digest(ref) != digest(got):
        k = next((i for i, (a, b) in enumerate(zip(ref, got)) if digest(a) != digest(b)), min(len(ref), len(got)))
        raise Violation('history-differs', 'stream %s: item %d of the history changes with %s' % (
            job['stream'], k, sorted(P)))


def shrink(job):
    for p in drop_each(job['perts'], 1):
        yield dict(job, perts=p)
    if job['n'] > 1:
        yield dict(job, n=1)
    if job['n_obs'] > 2:
        yield dict(job, n_obs=2)
