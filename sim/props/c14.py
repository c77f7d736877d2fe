"""C14  Clones in a worker pool influence neither each other nor the prototype."""
import io
import pickle
import random

import numpy as np
import pandas as pd
from joblib import parallel_config, register_parallel_backend
from joblib._parallel_backends import ParallelBackendBase
from sklearn.base import clone
from sklearn.metrics import accuracy_score, r2_score
from sklearn.model_selection import GridSearchCV, cross_val_predict, cross_validate, validation_curve
from sklearn.pipeline import Pipeline
from sklearn.utils import _safe_indexing

from .common import *  # noqa: F401,F403
from .. import core

ID = 'C14'
RUNS = {'quick': 700, 'thorough': 20000}
BATCH = 6
REAL = REAL_CORE + ['scikit-learn clone, cross_validate, cross_val_predict, validation_curve, GridSearchCV, Pipeline',
                    'joblib.Parallel (dispatch, batching, retrieval)', 'pickle']
STUB = STUB_CORE + ['joblib backend (simulated threads; out-of-process workers get pickled tasks and return pickled results)',
                    'asynchronous exceptions in workers']
ASSUMPTIONS = ASSUME_CORE + ['Only the package is preempted; scikit-learn and joblib code runs between two of its steps.',
                             'A task that is repeated after it was completed is not run at the same time as its first run '
                             'when both work on the same estimator object.']
RULE = ('A run hands clones of one prototype to scikit-learn model selection on 2-4 simulated workers (threads interleaved at '
        'every bytecode, or out-of-process copies), with killed, repeated and reordered tasks, and compares every score, '
        'prediction and returned estimator with serial evaluation in a pristine process.  Non-trivial: at least two workers.')
PROBES = ['validate', 'grid', 'curve', 'predict', 'tasks', 'threads', 'process', 'mixed', 'switched', 'killed', 'retried', 'repeated',
          'trained-prototype', 'series', 'dup-index', 'df', 'sparse', 'pipeline', 'hyper', 'regression', 'refit', 'optimizer-grid',
          'interrupt', 'memory', 'exit', 'error']


def gen_plan(rng, tier):
    cls = rng.random() < 0.6
    k = gen.pick_k(rng, [2, 2, 3])
    d = gen.pick_d(rng, [1, 2, 2, 3])
    ms = gen.model_spec(rng, types=('PC', 'HC') if cls else ('PR', 'HR'), k=k, d=d)
    s = gen.data_spec(rng, cls, d=d, k=k, n=rng.choice([12, 16, 24, 30]))
    s['fmt'] = rng.choice(['dense', 'dense', 'F', 'ro', 'f32', 'df', 'df', 'csr', 'csc', 'list', s['fmt']])
    s['yfmt'] = rng.choice(['array', 'list', 'series', 'series', 'series_dup', 'float', 'ro'])
    gen.tame(ms, [s])
    how = rng.choice(['validate', 'validate', 'grid', 'grid', 'curve', 'predict', 'tasks', 'tasks'])
    grid = {}
    names = rng.sample(['pp', 'prune', 'sp', 'prior', 'delta' if gen.is_perp(ms['t']) else 'opt'], rng.choice([1, 1, 2]))
    for nm in names:
        if nm == 'pp':
            grid[nm] = rng.sample([0.3, 0.5, 0.9, 0.99], 2)
        elif nm == 'prune':
            grid[nm] = [True, False]
        elif nm == 'sp':
            grid[nm] = [0.0, rng.choice([0.1, 0.5])]
        elif nm == 'delta':
            grid[nm] = [0, rng.choice([0.2, 1.0])]
        elif nm == 'prior':
            grid[nm] = [gen.prior_spec(rng, ms['t'], k) for _ in range(2)]
        else:
            grid[nm] = [gen.opt_spec(rng, cls, d) for _ in range(2)]
            gen.tame(dict(ms, opt=grid[nm][0]), [s])
            gen.tame(dict(ms, opt=grid[nm][1]), [s])
    return {'model': ms, 'data': [s], 'how': how, 'grid': grid, 'splits': [rng.randrange(1 << 20), rng.choice([2, 2, 3, 4])],
            'trained': rng.random() < 0.4, 'gpk': rng.choice(['array', 'list', 'tuple', 'int', 'ro']), 'set': rng.random() < 0.4,
            'pipe': rng.random() < 0.2, 'mode': rng.choice(['threads', 'threads', 'process', 'mixed']),
            'workers': rng.choice([2, 2, 3, 4]), 'pool': rng.randrange(1 << 20), 'shuffle': rng.random() < 0.5,
            'repeat': rng.choice([0, 0, 0.3]),
            'kill': [[rng.randrange(4), rng.choice(['memory', 'interrupt', 'error', 'exit']), rng.randrange(1500)]
                     for _ in range(rng.choice([0, 0, 1, 2, 3]))],
            'sched': gen.sched_spec(rng, rng.choice([500, 3000, 12000])), 'q': rng.randrange(1 << 20)}


NAMES = {'pp': 'partition_prior', 'prune': 'prune', 'sp': 'split_precision', 'prior': 'prior', 'delta': 'delta',
         'opt': 'optimizer'}


def value(nm, v, gpk='array'):
    return gen.build_opt(v) if nm == 'opt' else gen.build_prior({'prior': v, 'pk': gpk}) if nm == 'prior' else v


def candidates(grid):
    """Every combination, as changes of the model specification (later names vary fastest)."""
    out = [{}]
    for nm in sorted(grid, key=lambda n: NAMES[n]):
        out = [dict(c, **{nm: v}) for c in out for v in grid[nm]]
    return out


# ---- the pool -----------------------------------------------------------------------------------
class Pool:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.rng = random.Random(plan['pool'])
        self.kill = [list(k) for k in plan['kill']]
        self.largest = 0

    def run(self, tasks):
        """Results of zero-argument callables, ('ok', value) or ('exc', exception), in order."""
        p, sim = self.plan, core._sim
        far = [p['mode'] == 'process' or p['mode'] == 'mixed' and self.rng.random() < 0.5 for _ in tasks]
        payload = [pickle.dumps(t) if f else None for t, f in zip(tasks, far)]
        results = [None] * len(tasks)
        todo = list(range(len(tasks)))
        again = [i for i in todo if self.rng.random() < p['repeat']]
        if p['shuffle']:
            self.rng.shuffle(todo)
        queue = todo[::-1]
        attempt = 0
        while queue or again:
            if not queue:
                # the results of these tasks got lost on their way back
                queue, again = again, []
                self.ctx.probe('repeated', len(queue))
            running = {}

            def worker():
                while queue:
                    i = queue.pop()
                    me = sim.cur
                    running[me.id] = i
                    t = pickle.loads(payload[i]) if far[i] else tasks[i]
                    try:
                        r = ('ok', t())
                    except BaseException as e:
                        if me.fired_at is not None:
                            raise       # this worker died
                        if isinstance(e, (core.StepBudget, core.SimDeadlock)):
                            raise
                        r = ('exc', e)
                    if far[i] and r[0] == 'ok':
                        r = ('ok', pickle.loads(pickle.dumps(r[1])))
                    results[i] = r
                    running.pop(me.id, None)
            n = min(p['workers'], len(queue)) if attempt < 3 else 1
            self.largest = max(self.largest, n)
            faults = [None] * n
            if attempt < 3:
                while self.kill:
                    w, kind, at = self.kill.pop()
                    faults[w % n] = (1 + at, kind)
                    if self.rng.random() < 0.5:
                        break
            base = len(sim.threads)
            rs = sim.run_threads([worker] * n, faults)
            for j, r in enumerate(rs):
                if r[0] == 'exc':
                    if sim.threads[base + j].fired_at is None:
                        raise r[1]
                    self.ctx.probe('killed')
            for i in running.values():
                queue.append(i)
                self.ctx.probe('retried')
            attempt += 1
        self.ctx.probe(p['mode'])
        return results


class Job:
    def __init__(self, fn):
        self.fn, self.result = fn, None


class SimBackend(ParallelBackendBase):
    """joblib backend: collects the dispatched batches and runs them on the simulated pool when a result is asked for."""
    supports_retrieve_callback = False
    default_n_jobs = 4
    pool = None

    def __init__(self, **kw):
        super().__init__(**kw)
        self.jobs = []

    def effective_n_jobs(self, n_jobs):
        return n_jobs if n_jobs and n_jobs > 0 else 4

    def compute_batch_size(self):
        return 1

    def submit(self, func, callback=None):
        j = Job(func)
        self.jobs.append(j)
        if callback is not None:
            callback(j)
        return j

    def retrieve_result(self, out, timeout=None):
        if out.result is None:
            todo = [j for j in self.jobs if j.result is None]
            for j, r in zip(todo, SimBackend.pool.run([j.fn for j in todo])):
                j.result = r
        if out.result[0] == 'exc':
            raise out.result[1]
        return out.result[1]

    def get_nested_backend(self):
        from joblib._parallel_backends import SequentialBackend
        return SequentialBackend(nesting_level=1), 1


register_parallel_backend('verif-sim', SimBackend)


# ---- a run --------------------------------------------------------------------------------------
def series(D, fmt):
    if fmt == 'series_dup':
        return pd.Series(D.y.astype(int) if D.spec['cls'] else D.y.copy(), index=[5 + i // 3 for i in range(D.n)][::-1])
    return D.yin


def splits_of(plan, D, cls, partition):
    """Folds, each of whose training parts holds every class."""
    seed, n = plan['splits']
    require(n >= 2, 'one fold')
    for a in range(20):
        rs = np.random.RandomState(seed + a)
        if partition:
            f = rs.permutation(D.n) % n
            sp = [(np.where(f != i)[0], np.where(f == i)[0]) for i in range(n)]
        else:
            sp = []
            for _ in range(n):
                p = rs.permutation(D.n)
                h = max(2, D.n // 3)
                sp.append((p[h:], p[:h]))
        if all(len(tr) >= 3 and len(te) >= 2 and (not cls or len(np.unique(D.y[tr])) == D.spec['k']) for tr, te in sp):
            return sp
    raise Discard('no usable folds')


def score(cls, y, p):
    return accuracy_score(y, p) if cls else r2_score(y, p)


def spec_of(ms, change):
    ms = dict(ms)
    ms.update(change)
    if 'prior' in change:
        ms['pk'] = 'array'
    return ms


def expected(ctx, ms, D, sp, Q, cls):
    """Serial evaluation of one parameterisation on all folds: [(test score, train score, predictions, answers)]."""
    out = []
    for tr, te in sp:
        m = gen.build_model(ms)
        Xtr, Xte = _safe_indexing(D.Xin, tr), _safe_indexing(D.Xin, te)
        r = ctx.do(lambda: m.fit(Xtr, D.y[tr]))
        if r[0] == 'exc':
            return '{}: {}'.format(type(r[1]).__name__, str(r[1])[:200])
        p, q = np.array(m.predict(Xte)), m.predict(Xtr)
        out.append((score(cls, D.y[te], p), score(cls, D.y[tr], q), p, obs.observe(m, ms['t'], Q)))
    return out


def full(ctx, ms, D, Q):
    m = gen.build_model(ms)
    r = ctx.do(lambda: m.fit(D.Xin, D.y))
    return obs.observe(m, ms['t'], Q) if r[0] == 'ok' else '{}: {}'.format(type(r[1]).__name__, str(r[1])[:200])


class Task:
    """Clone, reparameterise, train, score."""
    def __init__(self, proto, params, D, y, tr, te):
        self.a = proto, params, D.Xin, y, tr, te

    def __call__(self):
        proto, params, X, y, tr, te = self.a
        m = clone(proto)
        if m.is_fitted() if hasattr(m, 'is_fitted') else False:
            return 'trained', None, None
        m.set_params(**params)
        m.fit(_safe_indexing(X, tr), _safe_indexing(y, tr))
        Xte, yte = _safe_indexing(X, te), _safe_indexing(y, te)
        return m.score(Xte, yte), m.predict(Xte), m


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


def run(plan, ctx):
    ms = plan['model']
    cls = gen.is_cls(ms['t'])
    s = dict(plan['data'][0])
    yfmt = s['yfmt']
    D = gen.build_data(dict(s, yfmt='array' if yfmt == 'series_dup' else yfmt))
    y = series(D, yfmt)
    require(plan['workers'] > 1, 'no workers')
    how = plan['how']
    cands = candidates(plan['grid'])
    require(all(len(v) > 0 for v in plan['grid'].values()), 'empty grid')
    if how in ('grid', 'curve'):
        require(len(plan['grid']) > 0, 'no grid')
    if how == 'curve':
        nm = sorted(plan['grid'], key=lambda n: NAMES[n])[0]
        cands = [{nm: v} for v in plan['grid'][nm]]
    if how in ('validate', 'predict'):
        cands = [{}]
    sp = splits_of(plan, D, cls, how == 'predict')
    Q = gen.query_matrix(D, plan['q'], 16)
    specs = [spec_of(ms, c) for c in cands]

    def serial():
        return [expected(ctx, x, D, sp, Q, cls) for x in specs], (full(ctx, specs[0], D, Q) if how != 'grid' else
                                                                 [full(ctx, x, D, Q) for x in specs])
    want, whole = ctx.fork(serial)
    for w in want:
        if isinstance(w, str):
            raise Violation('fit-fails', 'training on valid data raises ' + w)
    whole = whole if isinstance(whole, list) else [whole]
    for w in whole:
        if isinstance(w, str):
            raise Violation('fit-fails', 'training on valid data raises ' + w)

    proto = gen.build_model(ms)
    if plan['set']:
        # another way to the same prototype
        p = dict(proto.get_params(deep=False), prior=gen.build_prior(ms))
        proto = gen.build_model(dict(ms, pp=0.25, prior=[7.0] * len(ms['prior'] or [0] * 4), sp=0.01, prune=not ms['prune']))
        proto.set_params(**p)
    if plan['trained']:
        r = ctx.do(lambda: proto.fit(D.Xin, y))
        if r[0] == 'exc':
            raise Violation('fit-fails', 'training the prototype raises {}: {}'.format(type(r[1]).__name__, str(r[1])[:200]))
    before = obs.observe(proto, ms['t'], Q), obs.params_of(proto)
    est = Pipeline([('same', 'passthrough'), ('tree', proto)]) if plan['pipe'] and how != 'tasks' else proto
    pre = 'tree__' if est is not proto else ''
    watch = obs.Watch().add('the training matrix', D.Xin).add('the target', y)
    if isinstance(proto.prior, np.ndarray):
        watch.add('the prior', proto.prior)
    pool = SimBackend.pool = Pool(plan, ctx)
    grid = {pre + NAMES[n]: [value(n, v, plan['gpk']) for v in vs] for n, vs in plan['grid'].items()}
    kw = dict(cv=sp, n_jobs=plan['workers'])

    def go():
        with parallel_config(backend='verif-sim', n_jobs=plan['workers']):
            if how == 'validate':
                return cross_validate(est, D.Xin, y, return_estimator=True, return_train_score=True, error_score='raise',
                                      pre_dispatch='all', **kw)
            if how == 'grid':
                g = GridSearchCV(est, grid, refit=True, return_train_score=True, error_score='raise', pre_dispatch='all', **kw)
                return g.fit(D.Xin, y)
            if how == 'curve':
                nm = sorted(plan['grid'], key=lambda n: NAMES[n])[0]
                return validation_curve(est, D.Xin, y, param_name=pre + NAMES[nm], param_range=grid[pre + NAMES[nm]],
                                        error_score='raise', pre_dispatch='all', **kw)
            if how == 'predict':
                return cross_val_predict(est, D.Xin, y, pre_dispatch='all', **kw)
            ts = [Task(proto, {NAMES[n]: value(n, v, plan['gpk']) for n, v in c.items()}, D, y, tr, te) for c in cands for tr, te in sp]
            return pool.run(ts)
    import sys
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        r = ctx.do(go, sched=plan['sched'], watch=watch, watch_every=97)
    finally:
        sys.stderr = err
    if r[0] == 'exc':
        if isinstance(r[1], (Violation, Discard)):
            raise r[1]
        raise Violation('fails', 'model selection raises {}: {}'.format(type(r[1]).__name__, str(r[1])[-300:]))
    require(pool.largest > 1, 'no parallel work')
    if ctx.last.fired:
        ctx.probe('fault')
    out = r[1]

    def tree(m):
        return m.named_steps['tree'] if isinstance(m, Pipeline) else m

    def check_est(m, x, w, what):
        m = tree(m)
        got = obs.observe(m, x['t'], Q)
        if got != w:
            raise Violation('estimator', '{}: {}'.format(what, describe([w], [got])))
        want_p = obs.params_of(gen.build_model(x))
        got_p = obs.params_of(m)
        if set(got_p) != set(want_p):
            raise Violation('params', '{} has parameters {}'.format(what, sorted(got_p)))
        for k in want_p:
            if k != 'prior' and got_p[k] != want_p[k] or k == 'prior' and not same_prior(m.prior, x['prior']):
                raise Violation('params', 'parameter {} of {} is {} after training instead of {}'.format(
                    k, what, got_p[k], want_p[k]))
    if how == 'validate':
        for i, w in enumerate(want[0]):
            cmp(ctx, 'test score of fold {}'.format(i), out['test_score'][i], w[0])
            cmp(ctx, 'training score of fold {}'.format(i), out['train_score'][i], w[1])
            check_est(out['estimator'][i], specs[0], w[3], 'the estimator of fold {}'.format(i))
    elif how == 'curve':
        for j, w in enumerate(want):
            for i, f in enumerate(w):
                cmp(ctx, 'test score of fold {} for {}'.format(i, cands[j]), out[1][j][i], f[0])
                cmp(ctx, 'training score of fold {} for {}'.format(i, cands[j]), out[0][j][i], f[1])
    elif how == 'predict':
        for (tr, te), w in zip(sp, want[0]):
            cmp(ctx, 'predictions', np.asarray(out, dtype=float)[te], w[2])
    elif how == 'grid':
        if out.n_splits_ != len(sp) or len(out.cv_results_['params']) != len(cands):
            raise Violation('scores', '{} parameterisations on {} folds'.format(len(out.cv_results_['params']), out.n_splits_))
        for j, w in enumerate(want):
            for i, f in enumerate(w):
                cmp(ctx, 'test score of fold {} for {}'.format(i, cands[j]), out.cv_results_['split{}_test_score'.format(i)][j], f[0])
                cmp(ctx, 'training score of fold {} for {}'.format(i, cands[j]),
                    out.cv_results_['split{}_train_score'.format(i)][j], f[1])
        check_est(out.best_estimator_, specs[out.best_index_], whole[out.best_index_], 'the refitted best estimator')
        cmp(ctx, 'predictions of the search', out.predict(D.Xin), tree(out.best_estimator_).predict(D.Xin))
        ctx.probe('refit')
    else:
        n = 0
        for x, w in zip(specs, want):
            for f in w:
                st, v = out[n]
                if st == 'exc':
                    raise Violation('fails', 'a task raises {}: {}'.format(type(v).__name__, str(v)[:300]))
                if v[0] == 'trained':
                    raise Violation('clone', 'a clone is trained')
                cmp(ctx, 'score of task {}'.format(n), v[0], f[0])
                cmp(ctx, 'predictions of task {}'.format(n), v[1], f[2])
                check_est(v[2], x, f[3], 'the estimator of task {}'.format(n))
                n += 1
    after = obs.observe(proto, ms['t'], Q), obs.params_of(proto)
    if after[0] != before[0]:
        raise Violation('prototype', 'the prototype: {}'.format(describe([before[0]], [after[0]])))
    if after[1] != before[1]:
        raise Violation('prototype', 'the parameters of the prototype changed from {} to {}'.format(before[1], after[1]))
    if watch():
        raise Violation('modified', watch())
    # the prototype is still usable, and a clone of it is untrained and equally parameterised
    c = clone(proto)
    if c.is_fitted() or obs.params_of(c) != before[1]:
        raise Violation('clone', 'a clone is {} with parameters {}'.format('trained' if c.is_fitted() else 'untrained',
                                                                         obs.params_of(c)))
    ctx.probe(how)
    ctx.probe('switched', ctx.last.n_switches)
    ctx.probe('trained-prototype', plan['trained'])
    ctx.probe('series', yfmt in ('series', 'series_dup'))
    ctx.probe('dup-index', yfmt == 'series_dup')
    ctx.probe('df', s['fmt'] == 'df')
    ctx.probe('sparse', s['fmt'] in gen.SPARSE)
    ctx.probe('pipeline', est is not proto)
    ctx.probe('hyper', not gen.is_perp(ms['t']))
    ctx.probe('regression', not cls)
    ctx.probe('optimizer-grid', 'opt' in plan['grid'] and how in ('grid', 'curve', 'tasks'))


def same_prior(a, b):
    if a is None or b is None:
        return a is None and b is None
    return np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float))


def cmp(ctx, what, got, want):
    if not same(got, want):
        raise Violation('scores', '{} is {} instead of {} as in serial evaluation'.format(what, np.asarray(got).tolist(),
                                                                                           np.asarray(want).tolist()))
    ctx.note(np.asarray(got).tobytes())
