"""C05  Concurrent training of separate estimators is interference-free."""
from .common import *  # noqa: F401,F403

ID = 'C05'
RUNS = {'quick': 1800, 'thorough': 40000}
REAL = REAL_CORE
STUB = STUB_CORE + ['asynchronous exceptions', 'failing optimizer evaluations']
ASSUMPTIONS = ASSUME_CORE
RULE = ('A run lets 2-4 simulated threads train separate estimators at the same time that share the training matrix, the '
        'targets, the prior, the feature names and the optimizer object, under a seeded interleaving of bytecodes; some '
        'threads are killed half way or query afterwards.  Every completed estimator must answer as one trained alone in '
        'another process.  Non-trivial: at least one preemptive switch inside the library.')
PROBES = ['switched', 'interrupt', 'memory', 'exit', 'error', 'killed', 'hyper', 'shared-optimizer', 'shared-X', 'mixed-types',
          'other-data', 'threads>=3', 'sparse', 'pruned', 'refit-after-kill']


def gen_plan(rng, tier):
    cls = rng.random() < 0.6
    k = gen.pick_k(rng, [2, 2, 3])
    d = gen.pick_d(rng, [1, 2, 2, 3])
    types = ('PC', 'HC') if cls else ('PR', 'HR')
    base = gen.model_spec(rng, types=types, k=k, d=d)
    n_data = rng.choice([1, 1, 2])
    data = [gen.data_spec(rng, cls, d=d, k=k, n=rng.choice([8, 12, 20])) for _ in range(n_data)]
    threads = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        if rng.random() < 0.7:
            ms = dict(base)
        else:
            ms = gen.model_spec(rng, types=types, k=k, d=d)
        if rng.random() < 0.3:
            ms['pp'] = rng.choice([0.5, 0.9, 0.99])
        th = {'model': ms, 'data': rng.randrange(n_data), 'fault': gen.fault_spec(rng) if rng.random() < 0.25 else None}
        th['retry'] = th['fault'] is not None and rng.random() < 0.5
        threads.append(th)
    for th in threads:
        gen.tame(th['model'], data)
    return {'data': data, 'threads': threads, 'share_opt': rng.random() < 0.7, 'names': rng.random() < 0.3,
            'opt': None if gen.is_perp(base['t']) else base['opt'], 'q': rng.randrange(1 << 20),
            'sched': gen.sched_spec(rng, rng.choice([500, 3000, 12000]))}


def run(plan, ctx):
    Ds = [gen.build_data(s) for s in plan['data']]
    require(len(plan['threads']) > 0, 'no threads')
    for th in plan['threads']:
        require(hyper_ok(th['model'], Ds[0].d), 'optimizer needs more than one feature')
    Qs = [gen.query_matrix(D, plan['q'], 16) for D in Ds]
    names = ['name{}'.format(i) for i in range(Ds[0].d)] if plan['names'] else None
    shared = gen.build_opt(plan['opt']) if plan['opt'] and plan['share_opt'] else None

    def baseline():
        out = []
        for th in plan['threads']:
            m = gen.build_model(th['model'], opt=shared if th['model'].get('opt') == plan['opt'] else None)
            r = ctx.do(lambda: fit(m, Ds[th['data']], names=names))
            pts = ctx.last.threads[0].points
            if r[0] == 'exc':
                return '{}: {}'.format(type(r[1]).__name__, r[1])
            out.append((obs_all(m, th['model']['t'], Qs), pts))
        return out
    want = ctx.fork(baseline)
    if isinstance(want, str):
        raise Violation('fit-fails', 'training on valid data raises ' + want)
    priors = {}
    ms_ = []
    for th in plan['threads']:
        spec = th['model']
        key = repr((spec['prior'], spec['pk']))
        if key not in priors:
            priors[key] = gen.build_prior(spec)
        ms_.append(gen.build_model(spec, opt=shared if spec.get('opt') == plan['opt'] else None, prior=priors[key]))

    def body(m, th):
        try:
            fit(m, Ds[th['data']], names=names)
        except BaseException:
            if not th.get('retry'):
                raise
            ctx.probe('refit-after-kill')
            fit(m, Ds[th['data']], names=names)
    fns = [lambda m=m, th=th: body(m, th) for m, th in zip(ms_, plan['threads'])]
    faults = [gen.resolve_fault(th['fault'], w[1]) for th, w in zip(plan['threads'], want)]
    rs = ctx.threads_run(fns, faults, sched=plan['sched'])
    for i, (m, th, w, r) in enumerate(zip(ms_, plan['threads'], want, rs)):
        fired = ctx.last.threads[i].fired_at is not None
        ctx.probe('killed', fired)
        if r[0] == 'exc':
            if not fired:
                raise Violation('crash', 'training thread {} failed with {}: {}'.format(i, type(r[1]).__name__, r[1]))
            if th.get('retry'):
                raise Violation('crash', 'training thread {} failed again after its fault'.format(i))
            continue
        got = obs_all(m, th['model']['t'], Qs)
        if got != w[0]:
            raise Violation('interference', 'estimator {} trained concurrently: {}'.format(i, describe(w[0], got)))
    ctx.probe('switched', ctx.last.n_switches)
    ctx.probe('hyper', any(not gen.is_perp(th['model']['t']) for th in plan['threads']))
    ctx.probe('shared-optimizer', shared is not None)
    ctx.probe('shared-X', len(Ds) < len(plan['threads']))
    ctx.probe('other-data', len({th['data'] for th in plan['threads']}) > 1)
    ctx.probe('mixed-types', len({th['model']['t'] for th in plan['threads']}) > 1)
    ctx.probe('threads>=3', len(plan['threads']) >= 3)
    ctx.probe('sparse', any(D.spec['fmt'] in gen.SPARSE for D in Ds))
    ctx.probe('pruned', any(th['model']['prune'] for th in plan['threads']))
