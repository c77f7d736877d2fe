"""C17  Every operation terminates within a bounded amount of work."""
import numpy as np

from .common import *  # noqa: F401,F403
from .. import core, refmodel as R
from . import c09
from bayesian_decision_tree.hyperplane_optimization import HyperplaneOptimizer

ID = 'C17'
RUNS = {'quick': 4000, 'thorough': 45000}
REAL = REAL_CORE + ['all built-in optimizers except Optuna (not installed)', 'scipy DifferentialEvolutionSolver']
STUB = STUB_CORE + ['asynchronous exceptions', 'failing optimizer evaluations', 'worker pools (simulated threads)']
ASSUMPTIONS = ASSUME_CORE + [
    'Work is counted in bytecode instructions of the package and in objective evaluations; work inside numpy and scipy is not.',
    'The bounds are polynomials in rows, features, classes and nodes, several times what the current code needs.']
RULE = ('A run trains on seeded (often degenerate) data with any built-in optimizer, alone, after faults, or on several threads '
        'with kills and retries, and asks every query; each operation has a budget of library steps and evaluations, and no '
        'state may be reached in which no thread can run.  Non-trivial: at least one training was completed.')
PROBES = ['solo', 'threads', 'pool', 'retry', 'leaf-only', 'split', 'deep', 'same', 'dups', 'adjacent', 'const', 'noise', 'pruned',
          'one-feature', 'hyper', 'DE', 'RH', 'R2P', 'SA', 'GD', 'QR', 'OP', 'default-optimizer', 'regression', 'sparse', 'large',
          'greedy', 'fault', 'evaluation', 'switched']
KINDS = ['normal', 'grid', 'dups', 'sparse', 'const', 'scaled', 'binary', 'adjacent', 'same', 'same', 'two', 'near', 'huge']


def gen_model(rng, cls, k, d, perp):
    ms = gen.model_spec(rng, types=('PC', 'HC') if cls else ('PR', 'HR'), k=k, d=d)
    if perp:
        ms = gen.model_spec(rng, types=('PC',) if cls else ('PR',), k=k, d=d)
    if rng.random() < 0.25:
        ms['pp'] = rng.choice([0.999, 0.99999, 0.001])
    if not gen.is_perp(ms['t']) and rng.random() < 0.03:
        ms['opt'] = None
    return ms


def gen_plan(rng, tier):
    mode = rng.choice(['solo', 'solo', 'solo', 'threads', 'threads', 'pool'])
    if mode == 'pool':
        p = c09.gen_plan(rng, tier)
        p['kill'] = [[rng.randrange(4), rng.choice(['memory', 'interrupt', 'error']), rng.randrange(90)]
                     for _ in range(rng.choice([1, 2, 4, 6]))]
        return {'how': 'pool', 'pool_plan': p}
    cls = rng.random() < 0.6
    k = gen.pick_k(rng, [2, 2, 3, 5])
    d = gen.pick_d(rng, [1, 1, 2, 2, 3, 5])
    large = mode == 'solo' and rng.random() < 0.12
    n_data = rng.choice([1, 2])
    data = []
    for _ in range(n_data):
        s = gen.data_spec(rng, cls, d=d, k=k, n=rng.choice([100, 200, 300]) if large else None, kinds=KINDS)
        s['n'] = max(s['n'], k + 2)
        if rng.random() < 0.3:
            s['rule'], s['noise'] = 'rand', 1.0
        if not cls and rng.random() < 0.1:
            s['yconst'] = True
        if not cls and rng.random() < 0.1:
            s['yscale'] = rng.choice([1e-9, 1e6])
        data.append(s)
    plan = {'how': mode, 'data': data, 'q': rng.randrange(1 << 20)}
    if mode == 'solo':
        ms = gen_model(rng, cls, k, d, large)
        plan['model'] = ms
        plan['faults'] = [{'data': rng.randrange(n_data), 'at': gen.fault_spec(rng),
                           'evaluation': rng.choice([None, None, 1, 4, 9])} for _ in range(rng.choice([0, 0, 1, 2]))]
        ms_all = [ms]
    else:
        ths = [{'model': gen_model(rng, cls, k, d, False), 'data': rng.randrange(n_data),
                'fault': gen.fault_spec(rng) if rng.random() < 0.4 else None} for _ in range(rng.choice([2, 2, 3, 4]))]
        plan['threads'] = ths
        plan['share'] = rng.random() < 0.6
        plan['sched'] = gen.sched_spec(rng, rng.choice([500, 3000, 12000]))
        ms_all = [th['model'] for th in ths]
    for ms in ms_all:
        gen.tame(ms, data)
        if not gen.is_perp(ms['t']) and ms['opt'] is None:
            for s in data:
                s['n'] = min(s['n'], 8)
                s['d'] = min(s['d'], 2)
    return plan


# ---- bounds -------------------------------------------------------------------------------------
def eval_bound(ms, d):
    """Objective evaluations per node."""
    o = ms['opt']
    if o is None:
        return 40000
    k = o['o']
    if k == 'DE':
        return 2 * (o['maxiter'] + 2) * max(5, o['popsize'] * max(1, d - 1)) + (4000 if o.get('polish', True) else 2)
    if k in ('RH', 'R2P', 'QR', 'OP'):
        return o['n'] + 2
    if k == 'SA':
        return o['n_scan'] + o['n_keep'] * 3000
    return o['n_init'] + o['n_keep'] * 60000


def fit_bound(ms, n, d, k):
    """Library steps of one training."""
    node = 5000 + 150 * n * (d + 1) * (k + 2)
    b = 2 * n * node
    if not gen.is_perp(ms['t']):
        b += 2 * n * min(eval_bound(ms, d), 4000) * 1200
    return min(b, 12_000_000)


def query_bound(nodes, depth, rows, d, k):
    return 5000 + 3000 * nodes * (k + d) + 500 * rows * (depth + 2)


class Counting(HyperplaneOptimizer):
    """Counts evaluations per node and stops a search that exceeds its bound."""
    def __init__(self, inner, bound):
        super().__init__(search_space_is_unit_hypercube=inner.search_space_is_unit_hypercube)
        self.inner, self.bound = inner, bound
        self.fail_at = self.total = self.fired = 0
        self.worst = 0

    def solve(self, f):
        self.inner.solve(_Count(f, self))


class _Count:
    def __init__(self, f, o):
        self._f, self._o, self._n = f, o, 0

    def compute(self, v):
        o = self._o
        self._n += 1
        o.total += 1
        o.worst = max(o.worst, self._n)
        if self._n > o.bound:
            raise core.StepBudget('evaluations')
        if o.total == o.fail_at:
            o.fired += 1
            raise InjectedError('evaluation failed')
        return self._f.compute(v)

    def __getattr__(self, name):
        return getattr(self._f, name)


def build(ms, d, opt=None):
    if gen.is_perp(ms['t']):
        return gen.build_model(ms), None
    inner = opt or gen.build_opt(ms['opt'])
    if inner is None:
        return gen.build_model(ms), None
    c = Counting(inner, eval_bound(ms, d))
    return gen.build_model(ms, opt=c), c


def bounded(ctx, what, r):
    if r[0] == 'exc' and isinstance(r[1], core.StepBudget):
        raise Violation('endless', '{}: {}'.format(what, r[1]))
    if r[0] == 'exc' and isinstance(r[1], (Violation, Discard)):
        raise r[1]


def shape(ctx, m, ms, D):
    """Structure of a trained model: leaves and empty sides."""
    t = R.read_tree(m, gen.is_perp(ms['t']))
    rows = len({r.tobytes() for r in np.ascontiguousarray(D.X + 0.0)})

    def visit(nd, depth):
        if nd.leaf:
            if nd.n < 1:
                raise Violation('empty', 'a leaf holds {} samples'.format(nd.n))
            return 1, 1, depth
        a, b = visit(nd.left, depth + 1), visit(nd.right, depth + 1)
        return a[0] + b[0], 1 + a[1] + b[1], max(a[2], b[2])
    leaves, nodes, depth = visit(t, 0)
    if leaves > rows:
        raise Violation('leaves', '{} leaves for {} distinct rows'.format(leaves, rows))
    ctx.probe('leaf-only' if leaves == 1 else 'split')
    ctx.probe('deep', depth >= 4)
    return leaves, nodes, depth


def ask(ctx, m, ms, Q, sh, k):
    for name in obs.query_names(ms['t']):
        b = query_bound(sh[1], sh[2], len(Q), Q.shape[1], k)
        s = ctx.sim(budget=b)
        r = s.run(lambda: obs.call(m, name, Q))
        ctx.done(s)
        bounded(ctx, 'query {} of a tree with {} nodes'.format(name, sh[1]), r)
        if r[0] == 'exc':
            raise Violation('query-fails', '{} raises {}: {}'.format(name, type(r[1]).__name__, r[1]))


def run_solo(plan, ctx):
    ms = plan['model']
    Ds = [gen.build_data(s) for s in plan['data']]
    d = Ds[0].d
    k = plan['data'][0].get('k', 1)
    m, c = build(ms, d)
    bound = fit_bound(ms, max(D.n for D in Ds), d, k)

    def train(D, fault=None):
        s = ctx.sim(budget=bound)
        r = s.run(lambda: fit(m, D), fault)
        ctx.done(s)
        bounded(ctx, 'training with {} samples'.format(D.n), r)
        return r, s
    for f in plan['faults']:
        D = Ds[f['data']]
        if f['evaluation'] is not None and c is not None:
            c.fail_at, c.total, before = f['evaluation'], 0, c.fired
            train(D)
            c.fail_at = 0
            ctx.fault('evaluation', c.fired - before)
        else:
            def measure():
                s = ctx.sim(budget=bound)
                s.run(lambda: fit(build(ms, d)[0], D))
                return s.threads[0].points
            train(D, gen.resolve_fault(f['at'], ctx.fork(measure)))
            ctx.probe('fault')
        ctx.probe('retry')
    for D in Ds[:1]:
        r, s = train(D)
        if r[0] == 'exc':
            raise Violation('fit-fails', 'training on valid data raises {}: {}'.format(type(r[1]).__name__, str(r[1])[:300]))
        sh = shape(ctx, m, ms, D)
        ask(ctx, m, ms, gen.query_matrix(D, plan['q'], 24), sh, k)
        ctx.note(s.step, sh)
    probes(ctx, ms, plan['data'][0], Ds[0])


def run_threads(plan, ctx):
    Ds = [gen.build_data(s) for s in plan['data']]
    require(plan['threads'], 'no threads')
    d = Ds[0].d
    k = plan['data'][0].get('k', 1)
    n = max(D.n for D in Ds)
    shared, ms_ = {}, []
    for th in plan['threads']:
        key = repr(th['model'].get('opt'))
        inner = None
        if plan['share'] and th['model'].get('opt'):
            inner = shared.setdefault(key, gen.build_opt(th['model']['opt']))
        ms_.append(build(th['model'], d, inner)[0])
    total = min(20_000_000, sum(fit_bound(th['model'], n, d, k) for th in plan['threads']))

    def body(m, th):
        D = Ds[th['data']]
        try:
            fit(m, D)
        except Exception:
            if th['fault'] is None:
                raise
            fit(m, D)
        m.predict(D.Xin)
        m.get_n_leaves()

    def points(th):
        def measure():
            s = ctx.sim(budget=total)
            s.run(lambda: fit(build(th['model'], d)[0], Ds[th['data']]))
            return s.threads[0].points
        return ctx.fork(measure)
    faults = [gen.resolve_fault(th['fault'], points(th)) if th['fault'] else None for th in plan['threads']]
    s = ctx.sim(budget=min(2 * total + 100000, 30_000_000), sched=plan['sched'])
    rs = s.run_threads([lambda m=m, th=th: body(m, th) for m, th in zip(ms_, plan['threads'])], faults)
    ctx.done(s)
    for i, (m, th, r) in enumerate(zip(ms_, plan['threads'], rs)):
        bounded(ctx, 'thread {} of {}'.format(i, len(rs)), r)
        if r[0] == 'exc':
            if s.threads[i].fired_at is None:
                raise Violation('fit-fails', 'thread {} raises {}: {}'.format(i, type(r[1]).__name__, str(r[1])[:300]))
            # faults have stopped: training has to get through now
            r = ctx.do(lambda: fit(m, Ds[th['data']]))
            ctx.probe('retry')
            if r[0] == 'exc':
                raise Violation('stuck', 'training fails after an earlier fault with {}: {}'.format(
                    type(r[1]).__name__, str(r[1])[:300]))
        shape(ctx, m, th['model'], Ds[th['data']])
        probes(ctx, th['model'], plan['data'][th['data']], Ds[th['data']])
    ctx.probe('switched', s.n_switches)


def run_pool(plan, ctx):
    p = plan['pool_plan']
    try:
        c09.run(p, ctx)
    except Violation as v:
        if v.kind in ('deadlock', 'endless', 'fit-fails'):
            raise
        raise Discard('judged by C09')


def probes(ctx, ms, spec, D):
    ctx.probe(spec['kind'])
    ctx.probe('noise', spec['rule'] == 'rand')
    ctx.probe('pruned', ms['prune'])
    ctx.probe('one-feature', D.d == 1)
    ctx.probe('hyper', not gen.is_perp(ms['t']))
    ctx.probe('regression', not gen.is_cls(ms['t']))
    ctx.probe('sparse', spec['fmt'] in gen.SPARSE)
    ctx.probe('large', D.n >= 100)
    ctx.probe('greedy', ms['pp'] > 0.99)
    if not gen.is_perp(ms['t']):
        ctx.probe(ms['opt']['o'] if ms['opt'] else 'default-optimizer')


def run(plan, ctx):
    ctx.probe(plan['how'])
    if plan['how'] == 'pool':
        return run_pool(plan, ctx)
    return run_solo(plan, ctx) if plan['how'] == 'solo' else run_threads(plan, ctx)
