"""C12  Answers do not depend on how query rows are packaged."""
import pickle

import numpy as np

from .common import *  # noqa: F401,F403
from .. import refmodel as R

ID = 'C12'
RUNS = {'quick': 3200, 'thorough': 50000}
REAL = REAL_CORE
STUB = STUB_CORE + ['request stream (seeded batching, reordering, duplication, loss and retry)', 'asynchronous exceptions']
ASSUMPTIONS = ASSUME_CORE + ['Rows within 1e-12 (relative) of a hyperplane are not asked for: matrix products round differently '
                             'in batches of different size.']
RULE = ('A run trains a model, asks for every row alone in a process of its own, and then replays a seeded request stream - '
        'batches of any size, order and storage format with duplicates, sent by 1-3 concurrent callers, some killed half way and '
        'retried - and compares row by row.  Non-trivial: at least one batch with more than one row was answered by a tree '
        'with a split.')
PROBES = ['split-trees', 'depth>=3', 'batched', 'duplicate-rows', 'retried', 'threads', 'hyper', 'csr', 'csc', 'df', 'list', 'f32',
          'row1d', 'flat', 'i64', 'csr_unsorted', 'obj', 'neg', 'paths', 'proba', 'predict', 'interrupt', 'memory', 'empty',
          'boundary', 'raw', 'missing', 'infinite', 'depth>=10']

FMTS = ['dense', 'F', 'stride', 'neg', 'ro', 'df', 'list', 'obj', 'csr', 'csc', 'csr_unsorted', 'row1d', 'flat', 'csr_ro', 'csc_unsorted', 'csr_dup', 'csc_dup', 'be', 'ld', 'tuples']
NARROW = ['f32', 'i64', 'i32', 'i16', 'i8', 'f16', 'csr_i32', 'csc_i64', 'dfmix']


def gen_plan(rng, tier):
    cls = rng.random() < 0.6
    k = gen.pick_k(rng, [2, 2, 3, 4])
    d = gen.pick_d(rng, [1, 2, 2, 3, 4])
    ms = gen.model_spec(rng, types=('PC', 'PC', 'HC') if cls else ('PR', 'PR', 'HR'), k=k, d=d)
    ms['prune'] = rng.random() < 0.2
    ms['sp'] = 0.0
    ms['pp'] = rng.choice([0.9, 0.99, 0.99])
    s = gen.data_spec(rng, cls, d=d, k=k)
    s['n'] = max(s['n'], k + 2)
    if rng.random() < 0.5:
        s['rule'], s['noise'] = 'tree', 0.0
    if s['fmt'] == 'f32' and not gen.is_perp(ms['t']):
        s['fmt'] = 'dense'
    if gen.is_perp(ms['t']) and rng.random() < 0.1:
        s['kind'], s['fmt'] = rng.choice(['adjacent', 'near']), 'dense'
    gen.special(rng, ms, s)
    gen.tame(ms, [s])
    grid = rng.random() < 0.4 and not s.get('post')
    names = [n for n in ('predict', 'predict_proba', 'prediction_paths') if n in obs.query_names(ms['t'])]
    names += [names[-1]] * (len(names) - 1)
    if ms['prior'] is not None:
        names.append('_get_raw_leaf_data')
    reqs = []
    for _ in range(rng.choice([2, 4, 6])):
        n = rng.choice([1, 2, 3, 8, 20, 40] if rng.random() > 0.06 else [130, 200, 270, 600, 1100] if rng.random() < 0.5 else
                       [b + o for b in (128, 256, 512, 1000, 1024, 2000, 2048, 4096, 5000) for o in (-1, 0, 1, 1, 1)])
        reqs.append({'q': rng.choice(names), 'rows': [rng.randrange(1 << 16) for _ in range(n)] if rng.random() > 0.03 else [],
                     'fmt': rng.choice(FMTS + (NARROW if grid else [])), 'caller': rng.randrange(3),
                     'fault': gen.fault_spec(rng) if rng.random() < 0.15 else None})
    return {'model': ms, 'data': [s], 'reqs': reqs, 'callers': rng.choice([1, 1, 2, 3]), 'grid': grid, 'miss': not grid and rng.random() < 0.12, 'q': rng.randrange(1 << 20),
            'sched': gen.sched_spec(rng, rng.choice([300, 1500]))}


def query_rows(D, plan, tree):
    rs = np.random.RandomState(plan['q'])
    U = gen.query_matrix(D, plan['q'], 24)
    # rows exactly on the split values of a perpendicular tree
    def walk(nd):
        if nd.leaf:
            return
        if nd.perp:
            r = U[rs.randint(0, len(U))].copy()
            for v in (nd.value, np.nextafter(nd.value, -np.inf)):
                r = r.copy()
                r[nd.dim] = v
                extra.append(r)
        walk(nd.left)
        walk(nd.right)
    extra = []
    walk(tree)
    if extra:
        U = np.vstack([U] + extra[:12])
    if plan['grid']:
        U = np.clip(np.round(U), -100, 100)
    if plan.get('miss'):
        v = rs.uniform(size=U.shape)
        U[v < 0.1] = np.nan
        if tree.leaf or tree.perp:
            U[v > 0.95] = np.inf
            U[v > 0.97] = -np.inf
    return U + 0.0


def package(rows, fmt, seed):
    if fmt == 'row1d':
        return rows[0].copy() if len(rows) == 1 else rows.copy()
    if fmt == 'flat':
        return rows[0].tolist() if len(rows) == 1 else [list(r) for r in rows]
    return gen.format_X(rows, fmt, seed)


def rows_of(name, v):
    if name == 'prediction_paths':
        return [obs.freeze(p) for p in v]
    if name == 'predict':
        return [obs.freeze(float(x)) for x in v]
    return [obs.freeze(np.asarray(x, dtype=float)) for x in v]


def run(plan, ctx):
    ms = plan['model']
    t = ms['t']
    perp = gen.is_perp(t)
    D = gen.build_data(plan['data'][0])
    require(hyper_ok(ms, D.d), 'optimizer needs more than one feature')
    require(plan['callers'] > 0 and plan['reqs'], 'nothing to do')
    m = gen.build_model(ms)
    r = ctx.do(lambda: fit(m, D))
    if r[0] == 'exc':
        raise Violation('fit-fails', 'training raises {}: {}'.format(type(r[1]).__name__, r[1]))
    tree = R.read_tree(m, perp)
    U = query_rows(D, plan, tree)
    _, amb = R.leaf_of(tree, U)
    U = U[~amb]
    nan = bool(np.isnan(U).any())
    ctx.probe('missing', nan)
    ctx.probe('infinite', bool(np.isinf(U).any()))
    require(len(U) > 0, 'all rows are ambiguous')
    names = sorted({q['q'] for q in plan['reqs']})
    blob = pickle.dumps(m)

    def baseline():
        out = {}
        for n in names:
            out[n] = []
            for i in range(len(U)):
                c = pickle.loads(blob)
                a = ctx.do(lambda: rows_of(n, getattr(c, n)(U[i:i + 1].copy())))
                if a[0] == 'exc':
                    return n, '{}: {}'.format(type(a[1]).__name__, a[1])
                if len(a[1]) != 1:
                    return n, '{} answers for one row'.format(len(a[1]))
                out[n].append(a[1][0])
        pts = []
        for q, X, idx in todo:
            c = pickle.loads(blob)
            s = ctx.sim()
            s.run(lambda: obs.outcome(getattr(c, q['q']), X))
            pts.append(s.threads[0].points)
        return out, pts
    todo = []
    for q in plan['reqs']:
        idx = [i % len(U) for i in q['rows']]
        if not idx and (q['fmt'] not in ('dense', 'F', 'csr', 'csc', 'df')):
            idx = [0]
        fmt = 'list' if nan and q['fmt'] in ('obj', 'ld', 'be') else q['fmt']     # objects can not be missing values
        todo.append((q, package(U[idx], fmt, plan['q']), idx))
    want, pts = ctx.fork(baseline)
    if isinstance(want, str):
        raise Violation('query-fails', '{} of a single row: {}'.format(want, pts))
    answers = {}

    def caller(c):
        for j, (q, X, idx) in enumerate(todo):
            if q['caller'] % plan['callers'] != c:
                continue
            if q['fault']:
                t = sim[0].cur
                t.points, (t.fault_at, kind) = 0, gen.resolve_fault(q['fault'], pts[j])
                t.fault = (t.fault_at, kind)
                try:
                    answers[j] = getattr(m, q['q'])(X)
                except BaseException as e:
                    if t.fault is not None:
                        raise
                    del e
                    ctx.probe('retried')
                finally:
                    t.fault, t.fault_at = None, -1
                if j in answers:
                    continue
            answers[j] = getattr(m, q['q'])(X)
    s = ctx.sim(sched=plan['sched'])
    sim = [s]
    rs = s.run_threads([lambda c=c: caller(c) for c in range(plan['callers'])])
    ctx.done(s)
    for r in rs:
        if r[0] == 'exc':
            raise Violation('query-fails', 'a request fails with {}: {}'.format(type(r[1]).__name__, str(r[1])[:200]))
    for j, (q, X, idx) in enumerate(todo):
        a = rows_of(q['q'], answers[j])
        if len(a) != len(idx):
            raise Violation('rows', '{} rows asked, {} answers given by {} ({})'.format(len(idx), len(a), q['q'], q['fmt']))
        for p, i in enumerate(idx):
            if a[p] != want[q['q']][i]:
                raise Violation('packaging', '{} of row {} in a batch of {} ({}) gives {} instead of {}'.format(
                    q['q'], p, len(idx), q['fmt'], _sh(a[p]), _sh(want[q['q']][i])))
        ctx.probe(q['fmt'])
        ctx.probe({'predict_proba': 'proba', 'prediction_paths': 'paths', '_get_raw_leaf_data': 'raw'}.get(q['q'], q['q']))
        ctx.probe('batched', len(idx) > 1 and not tree.leaf)
        ctx.probe('duplicate-rows', len(set(idx)) < len(idx))
        ctx.probe('empty', not idx)
    ctx.probe('split-trees', not tree.leaf)
    ctx.probe('depth>=3', R.depth_of(tree) >= 3)
    ctx.probe('depth>=10', R.depth_of(tree) >= 10)
    ctx.probe('threads', plan['callers'] > 1)
    ctx.probe('hyper', not perp)
    ctx.probe('boundary', perp and not tree.leaf)
    ctx.note(str(m))


def _sh(v):
    return obs._short(v) if v[0] == 'nd' else repr(v)[:120]
