"""C08  The best proposed split wins, whatever the optimizer does."""
import types

import numpy as np

from .common import *  # noqa: F401,F403
from .. import refmodel as R
from .. import simopt as so
from bayesian_decision_tree.hyperplane_optimization import HyperplaneOptimizer
from bayesian_decision_tree.utils import hypercube_to_hypersphere_surface

ID = 'C08'
RUNS = {'quick': 5000, 'thorough': 60000}
REAL = REAL_CORE + ['the built-in optimizers']
STUB = STUB_CORE + ['optimizer (seeded proposal scripts) in part of the runs', 'failing evaluations']
ASSUMPTIONS = ASSUME_CORE + ['Directions along which two training points are closer than 1e-9 (relative) to each other or to '
                             'the split precision are left out: rounding decides there.']
RULE = ('A run trains a hyperplane tree with a recording optimizer (scripted proposals: lost, duplicated, reordered, degenerate, '
        'truncated, failing half way; or a built-in optimizer) and recomputes every score and every adopted split with an '
        'independent evidence model.  Non-trivial: at least one node was checked.')
PROBES = ['nodes', 'splits', 'evals', 'leaf-nodes', 'built-in', 'scripted', 'cube', 'degenerate', 'no-proposals', 'duplicates',
          'precision>0', 'sparse', 'int-data', 'regression', 'classes>2', 'swallowed', 'deep', 'no-split-possible', 'refit',
          'ambiguous']


def gen_plan(rng, tier):
    cls = rng.random() < 0.6
    k = gen.pick_k(rng, [2, 2, 3, 4])
    d = gen.pick_d(rng, [1, 2, 2, 3, 4])
    ms = gen.model_spec(rng, types=('HC',) if cls else ('HR',), k=k, d=d)
    ms['prune'] = False
    s = gen.data_spec(rng, cls, d=d, k=k)
    s['n'] = max(s['n'], k + 2)
    if s['fmt'] == 'f32':
        s['fmt'] = 'dense'
    if rng.random() < 0.6:
        ms['opt'] = so.sim_opt_spec(rng, d)
        ms['opt']['lose'] = [[rng.randrange(40), rng.randrange(60)] for _ in range(rng.choice([0, 0, 0, 1, 3]))]
    gen.tame(ms, [s])
    return {'model': ms, 'data': [s], 'refit': rng.random() < 0.15}


class Swallowing(HyperplaneOptimizer):
    """An optimizer that carries on after an evaluation that failed half way (out of memory)."""
    def __init__(self, spec, ctx):
        super().__init__(search_space_is_unit_hypercube=bool(spec.get('cube')))
        self.spec, self.ctx, self.count = spec, ctx, 0
        self.lose = dict((a, b) for a, b in spec.get('lose', ()))

    def solve(self, f):
        for v in so.SimOptimizer(self.spec).proposals(f.X.shape[1]):
            at = self.lose.get(self.count)
            self.count += 1
            if at is None:
                f.compute(v)
                continue
            s = self.ctx.last_sim
            t = s.cur
            t.fault, t.fault_at = (0, 'memory'), t.points + 1 + at
            try:
                f.compute(v)
            except MemoryError:
                self.ctx.probe('swallowed')
            finally:
                t.fault, t.fault_at = None, -1


def canon(X):
    return np.asarray(X.toarray() if hasattr(X, 'toarray') else X, dtype=float)


def key(X, y):
    M = np.column_stack([X, y]) + 0.0      # -0.0 equals 0.0
    return M[np.lexsort(M.T[::-1])].tobytes()


def direction(v, cube):
    degenerate = False
    if cube:
        n = np.atleast_1d(hypercube_to_hypersphere_surface(np.asarray(v, dtype=float), half_hypersphere=True))
        if not np.all(np.isfinite(n)) or abs(np.linalg.norm(n) - 1) > 1e-9:
            raise Violation('direction', 'the direction of a point of the unit hypercube is {}'.format(n))
    else:
        degenerate = not np.all(np.isfinite(v)) or np.all(v == 0)
        n = np.nan_to_num(v)
        if np.all(n == 0):
            n = np.eye(len(n))[0]
    return n / np.linalg.norm(n), degenerate


def run(plan, ctx):
    ms = plan['model']
    cls = gen.is_cls(ms['t'])
    D = gen.build_data(plan['data'][0])
    scripted = ms['opt']['o'] == 'SIM'
    inner = Swallowing(ms['opt'], ctx) if scripted else gen.build_opt(ms['opt'])
    for rnd in range(2 if plan['refit'] else 1):
        rec = so.Recorder(inner)
        m = gen.build_model(ms, opt=rec) if rnd == 0 else m
        m.optimizer = rec
        s = ctx.last_sim = ctx.sim()
        r = s.run(lambda: fit(m, D))
        ctx.done(s)
        if r[0] == 'exc':
            raise Violation('fit-fails', 'training raises {}: {}'.format(type(r[1]).__name__, r[1]))
        tree = R.read_tree(m, False)
        check(ctx, ms, cls, D, tree, rec)
        ctx.probe('refit', rnd)
    ctx.probe('scripted' if scripted else 'built-in')
    ctx.probe('cube', bool(rec.search_space_is_unit_hypercube))
    ctx.probe('degenerate', bool(scripted and ms['opt']['degen']))
    ctx.probe('duplicates', bool(scripted and ms['opt']['dup']))
    ctx.probe('no-proposals', D.d > 1 and not any(x['evals'] for x in rec.nodes))
    ctx.probe('precision>0', ms['sp'] > 0)
    ctx.probe('sparse', D.spec['fmt'] in gen.SPARSE)
    ctx.probe('int-data', D.spec['fmt'] in gen.FMT_INT)
    ctx.probe('regression', not cls)
    ctx.probe('classes>2', cls and plan['data'][0]['k'] > 2)
    ctx.probe('deep', R.depth_of(tree) >= 3)
    ctx.note(str(m))


def check(ctx, ms, cls, D, tree, rec):
    prior = R.root_prior(ms, D.n)
    records = {}
    for x in rec.nodes:
        records.setdefault(key(canon(x['X']), np.asarray(x['y'], dtype=float)), []).append(x)
    cube = rec.search_space_is_unit_hypercube

    def visit(nd, X, y, level):
        x = records.get(key(X, y))
        if not x:
            if level and nd.leaf and (len(y) < 2 or len(np.unique(y)) < 2):
                return      # nothing to learn, so the optimizer is not asked
            if cube and D.d == 1:
                # all hyperplanes are parallel: there is one direction, and no optimizer can propose another one
                x = [{'f': types.SimpleNamespace(X=X), 'y': y, 'evals': [(None, None)]}]
        if not x:
            raise Violation('skipped', 'the optimizer was never asked about a node of {} samples'.format(len(y)))
        x = x[0]
        pp, sp = ms['pp'], ms['sp']
        no = R.evidence(cls, prior, y) + R.log_no_split(pp, level)
        Xl = x['f'].X       # the very object the library computes with
        Xd = canon(Xl)
        yl = np.asarray(x['y'], dtype=float)
        best, ambiguous = -np.inf, 0
        for v, score in x['evals']:
            n, degenerate = (np.ones(1), False) if v is None else direction(v, cube)
            p = np.asarray(Xl @ n).ravel()
            if R.gap_ambiguous(p, sp, Xd, n):
                ambiguous += 1
                continue
            pos, order, ll = R.line_candidates(cls, prior, p, yl, pp, level, D.d, sp)
            want = no if len(ll) == 0 else ll.max()
            t = R.tol(want, len(y))
            if v is not None and not abs(-score - want) <= 10 * t:
                if degenerate and abs(-score - no) <= 10 * t:
                    continue
                raise Violation('score', 'a proposal for a node of {} samples is scored {:.10g} but the best split along it has '
                                'log p {:.10g}'.format(len(y), score, want))
            ctx.probe('no-split-possible', len(ll) == 0)
            if len(ll):
                best = max(best, ll.max())
        ctx.probe('evals', len(x['evals']))
        ctx.probe('ambiguous', ambiguous)
        ctx.probe('nodes')
        t = 10 * R.tol(no if best == -np.inf else max(abs(no), abs(best)), len(y))
        if nd.leaf:
            ctx.probe('leaf-nodes')
            if not ambiguous and best > no + t:
                raise Violation('leaf', 'a node of {} samples stays a leaf (log p {:.10g}) although a proposed split has log p '
                                '{:.10g}'.format(len(y), no, best))
            return
        ctx.probe('splits')
        if not np.all(np.isfinite(nd.normal)) or abs(np.linalg.norm(nd.normal) - 1) > 1e-9:
            raise Violation('direction', 'the adopted normal is not a unit vector: {}'.format(nd.normal))
        left, amb = R.goes_left(nd, X)
        if amb.any():
            return
        pr = X @ nd.normal
        if R.gap_ambiguous(pr, sp, X, nd.normal):
            return
        pos, order, ll = R.line_candidates(cls, prior, pr, y, pp, level, D.d, sp)
        k = int(left.sum())
        if k == 0 or k == len(y):
            raise Violation('groups', 'the adopted hyperplane leaves all samples on one side')
        if (nd.left.n, nd.right.n) != (k, len(y) - k):
            raise Violation('groups', 'the adopted hyperplane separates {}/{} samples but its sides count {}/{}'.format(
                k, len(y) - k, nd.left.n, nd.right.n))
        at = np.where(pos == k)[0]
        if len(at) == 0:
            raise Violation('groups', 'the adopted hyperplane does not lie between two samples further apart than the precision')
        v = ll[at[0]]
        if v < best - t:
            raise Violation('not-best', 'the adopted split of a node of {} samples has log p {:.10g} but one with {:.10g} was '
                            'proposed'.format(len(y), v, best))
        if v < no - t:
            raise Violation('split', 'the adopted split has log p {:.10g}, not splitting {:.10g}'.format(v, no))
        if abs(nd.gain - (v - no)) > 10 * t:
            raise Violation('groups', 'the recorded gain {:.10g} is not that of the groups the hyperplane separates ({:.10g})'.format(
                nd.gain, v - no))
        visit(nd.left, X[left], y[left], level + 1)
        visit(nd.right, X[~left], y[~left], level + 1)
    visit(tree, D.X, D.y, 0)
