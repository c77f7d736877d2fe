"""C09  Parallel evaluation of proposals loses or mixes nothing."""
import pickle
import random

import numpy as np

from .common import *  # noqa: F401,F403
from .. import core
from .. import refmodel as R
from .. import simopt as so
from .c08 import canon, direction, key
from bayesian_decision_tree.hyperplane_optimization import HyperplaneOptimizer, ScipyOptimizer

ID = 'C09'
RUNS = {'quick': 7000, 'thorough': 60000}
REAL = REAL_CORE + ['scipy DifferentialEvolutionSolver with its workers option', 'pickle']
STUB = STUB_CORE + ['worker pool (simulated threads; out-of-process workers are pickled copies of the function)',
                    'asynchronous exceptions in workers']
ASSUMPTIONS = ASSUME_CORE + ['Directions with near-ties between projections are left out, as in C08.',
                             'An out-of-process evaluation works on a pickled copy of the objective and returns its score only.']
RULE = ('A run trains a hyperplane tree whose optimizer evaluates proposals on 2-4 simulated workers (in-process threads '
        'interleaved at every bytecode, or out-of-process copies), with delayed, reordered, duplicated, killed and retried '
        'evaluations, and compares every adopted split with the best score reported and with an independent evidence model.  '
        'Non-trivial: at least one node was evaluated by two or more workers.')
PROBES = ['nodes', 'splits', 'scipy', 'raw', 'threads', 'process', 'mixed', 'switched', 'duplicated', 'killed', 'retried',
          'polish', 'no-polish', 'sparse', 'regression', 'memory', 'interrupt', 'ambiguous', 'stalled']


def gen_plan(rng, tier):
    cls = rng.random() < 0.7
    k = gen.pick_k(rng, [2, 2, 3])
    d = rng.choice([2, 2, 3, 4])
    ms = gen.model_spec(rng, types=('HC',) if cls else ('HR',), k=k, d=d)
    ms['prune'], ms['sp'] = False, 0.0
    s = gen.data_spec(rng, cls, d=d, k=k, n=rng.choice([4, 6, 8, 12, 16]), kinds=['normal', 'clusters', 'grid', 'sparse', 'scaled', 'near', 'adjacent', 'huge'])
    s['n'] = max(s['n'], k + 2)
    s['fmt'] = rng.choice(['dense', 'dense', 'csr', 'csc', 'F'])
    raw = rng.random() < 0.5
    if raw:
        ms['opt'] = so.sim_opt_spec(rng, d)
        ms['opt']['n'] = rng.choice([3, 6, 10])
    else:
        ms['opt'] = {'o': 'DE', 'seed': rng.randrange(1000), 'maxiter': rng.choice([0, 1, 2]), 'popsize': 2,
                     'polish': rng.random() < 0.4}
    mode = rng.choice(['threads', 'threads', 'threads', 'process', 'mixed'])
    return {'model': ms, 'data': [s], 'mode': mode, 'workers': rng.choice([2, 2, 3, 4]), 'pool': rng.randrange(1 << 20),
            'dup': rng.choice([0, 0, 0.2, 0.5]), 'shuffle': rng.random() < 0.5,
            'stall': rng.choice([0, 0, 0.3]),
            'kill': [[rng.randrange(4), rng.choice(['memory', 'interrupt', 'error']), rng.randrange(60)]
                     for _ in range(rng.choice([0, 0, 1, 2]))],
            'sched': gen.sched_spec(rng, rng.choice([300, 1500, 5000]))}


class Pool:
    """A map-like pool of simulated workers."""
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.rng = random.Random(plan['pool'])
        self.kill = [list(k) for k in plan['kill']]
        self.round = 0
        self.rec = None
        self.parallel = 0

    def __call__(self, func, items):
        items = [np.array(v, dtype=float) for v in items]
        p = self.plan
        todo = list(range(len(items)))
        extra = [i for i in todo if self.rng.random() < p['dup']]
        self.ctx.probe('duplicated', len(extra))
        todo += extra
        if p['shuffle']:
            self.rng.shuffle(todo)
        results = {}
        far = {i: p['mode'] == 'process' or p['mode'] == 'mixed' and self.rng.random() < 0.4 for i in range(len(items))}
        stalls = [self.rng.random() < p['stall'] for _ in todo]
        queue = list(zip(todo, stalls))[::-1]
        sim = core._sim
        lost = []

        def worker():
            while queue:
                i, stalled = queue.pop()
                if stalled:
                    self.ctx.probe('stalled')
                    sim.yield_point(i)
                cur = sim.cur
                started[cur.id] = i
                v = items[i].copy()
                v.setflags(write=bool(i % 2))
                f = pickle.loads(pickle.dumps(func)) if far[i] else func
                r = float(f(v))
                results.setdefault(i, []).append(r)
                started.pop(cur.id, None)

        attempt = 0
        while queue:
            started = {}
            n = min(p['workers'], len(queue)) if attempt < 3 else 1
            faults = [None] * n
            if attempt < 3:
                while self.kill:
                    w, kind, at = self.kill.pop()
                    faults[w % n] = (1 + at, kind)
                    if self.rng.random() < 0.5:
                        break
            base = len(sim.threads)
            rs = sim.run_threads([worker] * n, faults)
            for j, r in enumerate(rs):
                t = sim.threads[base + j]
                if r[0] == 'exc':
                    if t.fired_at is None:
                        raise r[1]
                    self.ctx.probe('killed')
            for i in started.values():      # the tasks of dead workers are handed out again
                queue.append((i, False))
                self.ctx.probe('retried')
            attempt += 1
            self.parallel = max(self.parallel, n)
        out = [results[i][-1] for i in range(len(items))]
        for i, rr in results.items():
            if len(set(rr)) > 1:
                raise Violation('unstable', 'the same proposal is scored {} and {}'.format(rr[0], rr[1]))
            self.rec['evals'].append((items[i], rr[0]))
        self.ctx.probe('mixed' if p['mode'] == 'mixed' else p['mode'])
        return out


class RawOptimizer(HyperplaneOptimizer):
    """Evaluates scripted proposals in the pool, batch by batch."""
    def __init__(self, spec, pool):
        super().__init__(search_space_is_unit_hypercube=bool(spec.get('cube')))
        self.spec, self.pool = spec, pool

    def solve(self, f):
        vs = so.SimOptimizer(self.spec).proposals(f.X.shape[1])
        for a in range(0, len(vs), 6):
            batch = vs[a:a + 6]
            out = self.pool(f.compute, batch)
            if self.pool.plan['mode'] != 'threads':
                # what an optimizer has to do that evaluates elsewhere: hand in the winner
                f.compute(batch[int(np.argmin(out))])


class Noting(HyperplaneOptimizer):
    def __init__(self, inner, pool):
        super().__init__(search_space_is_unit_hypercube=inner.search_space_is_unit_hypercube)
        self.inner, self.pool, self.nodes = inner, pool, []

    def solve(self, f):
        rec = {'X': canon(f.X).copy(), 'y': np.array(f.y, dtype=float), 'evals': [], 'f': f}
        self.nodes.append(rec)
        self.pool.rec = rec
        self.inner.solve(f)

    def __reduce__(self):       # what an out-of-process worker gets of it
        return Far, (self.search_space_is_unit_hypercube,)


class Far(HyperplaneOptimizer):
    def solve(self, f):
        raise RuntimeError('never trains')


def run(plan, ctx):
    ms = plan['model']
    cls = gen.is_cls(ms['t'])
    D = gen.build_data(plan['data'][0])
    require(D.d > 1 or ms['opt']['o'] == 'SIM' and not ms['opt'].get('cube'), 'one feature')
    require(plan['workers'] > 0, 'no workers')
    require(ms['sp'] == 0, 'precision')
    pool = Pool(plan, ctx)
    o = ms['opt']
    if o['o'] == 'SIM':
        inner = RawOptimizer(o, pool)
    else:
        inner = ScipyOptimizer(env.scipy.optimize._differentialevolution.DifferentialEvolutionSolver, o['seed'],
                               maxiter=o['maxiter'], popsize=max(o['popsize'], 2), polish=bool(o['polish']), workers=pool,
                               updating='deferred')
    rec = Noting(inner, pool)
    m = gen.build_model(ms, opt=rec)
    r = ctx.do(lambda: fit(m, D), sched=plan['sched'])
    if r[0] == 'exc':
        if isinstance(r[1], (Violation, Discard)):
            raise r[1]
        raise Violation('fit-fails', 'training with parallel evaluations raises {}: {}'.format(type(r[1]).__name__, r[1]))
    tree = R.read_tree(m, False)
    check(ctx, ms, cls, D, tree, rec)
    ctx.probe('raw' if o['o'] == 'SIM' else 'scipy')
    ctx.probe('polish' if o.get('polish') else 'no-polish', o['o'] == 'DE')
    ctx.probe('switched', ctx.last.n_switches)
    ctx.probe('sparse', D.spec['fmt'] in gen.SPARSE)
    ctx.probe('regression', not cls)
    ctx.note(str(m))


def check(ctx, ms, cls, D, tree, rec):
    prior = R.root_prior(ms, D.n)
    records = {}
    for x in rec.nodes:
        records.setdefault(key(x['X'], x['y']), x)
    cube = rec.search_space_is_unit_hypercube

    def visit(nd, X, y, level):
        x = records.get(key(X, y))
        if x is None:
            return
        pp = ms['pp']
        no = R.evidence(cls, prior, y) + R.log_no_split(pp, level)
        ambiguous = 0
        reported = []
        for v, s in x['evals']:
            n, _ = direction(v, cube)
            p = np.asarray(x['f'].X @ n).ravel()
            if R.gap_ambiguous(p, 0.0, x['X'], n):
                ambiguous += 1
            else:
                reported.append(-s)
        best = max(reported, default=-np.inf)
        ctx.probe('nodes')
        ctx.probe('ambiguous', ambiguous)
        t = 10 * R.tol(no if best == -np.inf else max(abs(no), abs(best)), len(y))
        if nd.leaf:
            if not ambiguous and best > no + t:
                raise Violation('lost', 'a node of {} samples stays a leaf (log p {:.10g}) although {:.10g} was reported to the '
                                'optimizer'.format(len(y), no, best))
            return
        ctx.probe('splits')
        left, amb = R.goes_left(nd, X)
        pr = X @ nd.normal
        if amb.any() or R.gap_ambiguous(pr, 0.0, X, nd.normal):
            return
        k = int(left.sum())
        pos, order, ll = R.line_candidates(cls, prior, pr, y, pp, level, D.d, 0.0)
        at = np.where(pos == k)[0]
        if k == 0 or k == len(y) or len(at) == 0 or (nd.left.n, nd.right.n) != (k, len(y) - k):
            raise Violation('mixed', 'the adopted direction and position do not separate the samples ({} of {} on one side, '
                            'counted {})'.format(k, len(y), nd.left.n))
        v = ll[at[0]]
        if abs(nd.gain - (v - no)) > 10 * t:
            raise Violation('mixed', 'the recorded gain {:.10g} is not that of the adopted direction and position ({:.10g})'.format(
                nd.gain, v - no))
        xs = np.sort(pr)
        mid, o = 0.5 * (xs[k - 1] + xs[k]), float(nd.normal @ nd.origin)
        if abs(mid - o) > 1e-9 * max(abs(xs).max(), abs(o)) + 1e-3 * (xs[k] - xs[k - 1]):
            raise Violation('mixed', 'the adopted position {:.10g} is not midway between the samples it separates ({:.10g})'.format(
                o, mid))
        if v < best - t:
            raise Violation('lost', 'the adopted split of a node of {} samples has log p {:.10g} but {:.10g} was reported to the '
                            'optimizer'.format(len(y), v, best))
        visit(nd.left, X[left], y[left], level + 1)
        visit(nd.right, X[~left], y[~left], level + 1)
    visit(tree, D.X, D.y, 0)
