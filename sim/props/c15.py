"""C15  Invalid requests are rejected with ValueError and have no effect."""
import numpy as np
import pandas as pd
from scipy.sparse import csc_matrix, csr_matrix

from .common import *  # noqa: F401,F403
from . import history

ID = 'C15'
RUNS = {'quick': 3000, 'thorough': 50000}
REAL = REAL_CORE
STUB = STUB_CORE + ['asynchronous exceptions', 'progress stream', 'failing optimizer evaluations']
ASSUMPTIONS = ASSUME_CORE + ['What is invalid is what the statement lists; values such as NaN in the data are not judged.']
RULE = ('A run takes an estimator through a seeded history of valid, failing and interrupted operations into which invalid '
        'requests are inserted (some of them interrupted as well).  Every invalid request has to end in ValueError, and after '
        'every operation the estimator must answer exactly as a twin in another process that went through the same history '
        'without the invalid requests.  Non-trivial: at least one invalid request was made.')
FIT_BAD = ['y-short', 'y-long', 'y-2d', 'y-3d', 'y-scalar', 'X-3d', 'X-0d', 'X-text', 'X-ragged', 'X-vector', 'X-transposed',
           'y-text', 'y-none', 'rows0', 'cols0', 'X-rows', 'y-empty']
LABEL_BAD = ['label-shift', 'label-missing', 'label-extra', 'label-negative', 'label-fraction', 'label-nan', 'label-one']
QUERY_BAD = ['q-wide', 'q-narrow', 'q-3d', 'q-0d', 'q-text', 'q-ragged', 'q-vector', 'q-transposed', 'q-empty', 'q-score']
PROBES = ['untrained', 'trained', 'after-fault', 'interrupted', 'untrained-query', 'hyper', 'regression', 'sparse', 'df', 'list',
          'refit-later', 'other-width'] + FIT_BAD + LABEL_BAD + QUERY_BAD
FMTS = ['dense', 'dense', 'csr', 'csc', 'df', 'list', 'f32', 'int']


def gen_bad(rng, cls, n_data):
    what = rng.choice(FIT_BAD + 2 * LABEL_BAD + QUERY_BAD + 3 * ['untrained']) if cls else \
        rng.choice(FIT_BAD + QUERY_BAD + 3 * ['untrained'])
    b = {'op': 'bad', 'what': what, 'data': rng.randrange(n_data), 'fmt': rng.choice(FMTS), 'seed': rng.randrange(1 << 20),
         'q': rng.choice(['predict', 'predict', 'predict_proba', 'prediction_paths', '_get_raw_leaf_data']),
         'verbose': rng.random() < 0.1, 'at': None}
    if rng.random() < 0.12:
        b['at'] = [rng.choice(['interrupt', 'memory', 'error', 'exit']), 'start', rng.randrange(40)]
    return b


def gen_plan(rng, tier):
    cls = rng.random() < 0.65
    k = gen.pick_k(rng, [2, 2, 3, 4])
    d = gen.pick_d(rng, [1, 2, 2, 3])
    ms = gen.model_spec(rng, types=('PC', 'PC', 'HC') if cls else ('PR', 'PR', 'HR'), k=k, d=d)
    n_data = rng.choice([1, 2, 2])
    data = [gen.data_spec(rng, cls, d=d, k=k, n=gen.wide_n(rng, rng.choice([4, 6, 9, 16]), 0.03)) for _ in range(n_data)]
    if n_data == 2 and d > 1 and rng.random() < 0.5:
        data[1]['d'] = d + 1
    for s in data:
        s['n'] = max(s['n'], k + 2)
    gen.tame(ms, data)
    ops = history.gen_history(rng, ms, n_data, rng.choice([0, 1, 1, 2, 3]))
    if rng.random() < 0.75:
        ops.insert(0, {'op': 'fit', 'data': 0})
    for _ in range(rng.choice([1, 2, 3, 4])):
        ops.insert(rng.randrange(len(ops) + 1), gen_bad(rng, cls, n_data))
    if rng.random() < 0.4:
        ops.append({'op': 'fit', 'data': rng.randrange(n_data)})
    return {'model': ms, 'data': data, 'ops': ops, 'q': rng.randrange(1 << 20)}


def pack(X, fmt):
    """Valid or invalid matrices of every storage format (where the format can hold them)."""
    X = np.asarray(X)
    if X.ndim != 2 or X.dtype.kind not in 'fiu':
        return X.tolist() if fmt == 'list' else X
    if fmt == 'csr':
        return csr_matrix(X)
    if fmt == 'csc':
        return csc_matrix(X)
    if fmt == 'df':
        return pd.DataFrame(X)
    if fmt == 'list':
        return X.tolist()
    if fmt == 'f32':
        return X.astype(np.float32)
    if fmt == 'int':
        return np.round(X).astype(np.int32)
    return X.copy()


def bad_fit(b, D, cls, k):
    """(X, y) of an invalid training request."""
    rs = np.random.RandomState(b['seed'])
    w, fmt = b['what'], b['fmt']
    X, y = D.X, D.y.astype(int) if cls else D.y
    n, d = X.shape
    if w == 'y-short':
        y = y[:-1]
        require(not cls or len(np.unique(y)) == k, 'classes')
    elif w == 'y-long':
        y = np.concatenate([y, y[:1 + b['seed'] % 3]])
    elif w == 'y-2d':
        y = np.column_stack([y, y])
    elif w == 'y-3d':
        y = np.array([[y, y], [y, y]])
    elif w == 'y-scalar':
        y = y[0]
    elif w == 'y-empty':
        y = y[:0]
    elif w == 'y-text':
        y = np.array(['c{}'.format(v) for v in y])
    elif w == 'y-none':
        y = np.array(list(y), dtype=object)
        y[rs.randint(0, n)] = None
    elif w == 'X-3d':
        return np.zeros((n, d, 2)), y
    elif w == 'X-0d':
        return np.array(1.5), y
    elif w == 'X-text':
        X = X.astype(object)
        X[rs.randint(0, n), rs.randint(0, d)] = 'text'
        return {'list': X.tolist(), 'df': pd.DataFrame(X)}.get(fmt, X), y
    elif w == 'X-ragged':
        rows = X.tolist()
        rows[rs.randint(0, n)].append(1.0)
        return rows, y
    elif w == 'X-vector':
        require(n > 1, 'one row')
        return X[:, 0].copy(), y
    elif w == 'X-transposed':
        require(n != d, 'square')
        X = X.T
    elif w == 'X-rows':
        X = X[:-1] if b['seed'] % 2 else np.vstack([X, X[:1]])
    elif w == 'rows0':
        X, y = X[:0], y[:0]
    elif w == 'cols0':
        X = X[:, :0]
    elif w == 'label-shift':
        y = y + 1
    elif w == 'label-missing':
        gone = b['seed'] % k
        keep = y != gone
        require(keep.sum() > 1, 'too few')
        X, y = X[keep], y[keep]
    elif w == 'label-extra':
        y = y.copy()
        y[:] = np.arange(n) % k
        y[rs.randint(0, n)] = k
    elif w == 'label-negative':
        y = np.where(y == 0, -1, y)
    elif w == 'label-fraction':
        y = y.astype(float)
        y[rs.randint(0, n)] += 0.5
    elif w == 'label-nan':
        y = y.astype(float)
        y[rs.randint(0, n)] = np.nan
    elif w == 'label-one':
        y = np.zeros(n, dtype=int)
        require(k > 1, 'one class')
    X = pack(X, fmt)
    if b['seed'] % 5 == 0 and isinstance(y, np.ndarray) and y.ndim == 1:
        y = pd.Series(y, index=np.arange(len(y))[::-1] + 7)
    elif b['seed'] % 5 == 1 and isinstance(y, np.ndarray):
        y = y.tolist()
    return X, y


def bad_query(b, D, widths):
    """X of an invalid query; `widths` are all feature counts the model may have been trained with."""
    w, fmt = b['what'], b['fmt']
    X = D.X[:5]
    wide = max(widths) + 1
    if w == 'q-wide':
        return pack(np.ones((b['seed'] % 5, wide + b['seed'] % 2)), fmt)
    if w == 'q-narrow':
        require(min(widths) > 1, 'one feature')
        return pack(np.ones((b['seed'] % 4, min(widths) - 1)), fmt)
    if w == 'q-3d':
        return np.zeros((2, D.d, 2))
    if w == 'q-0d':
        return np.array(0.5)
    if w == 'q-text':
        return [['t'] * D.d] * 2 if fmt == 'list' else np.array([['t'] * D.d] * 2, dtype=object)
    if w == 'q-ragged':
        return [[0.0] * D.d, [0.0] * (D.d + 1)]
    if w == 'q-vector':
        return np.ones(wide) if fmt != 'list' else [1.0] * wide
    if w == 'q-transposed':
        X = D.X.T
        require(X.shape[1] not in widths, 'fits')
        return pack(X, fmt)
    if w == 'q-empty':
        return []
    return X


def request(m, b, D, cls, k, widths):
    """A callable that makes the invalid request."""
    w = b['what']
    if w in FIT_BAD + LABEL_BAD:
        X, y = bad_fit(b, D, cls, k)
        return lambda: m.fit(X, y, verbose=b['verbose'])
    if w == 'untrained':
        q = D.X[:3] if b['seed'] % 3 else D.X[:b['seed'] // 3 % 4]
        names = ['predict', 'predict_proba', 'prediction_paths', '_get_raw_leaf_data', 'feature_importance', 'get_depth',
                 'get_n_leaves', 'is_leaf', 'score']
        name = [x for x in names if hasattr(m, x)][b['seed'] % len([x for x in names if hasattr(m, x)])]
        if name == 'score':
            return lambda: m.score(D.X[:3], D.y[:3])
        if name in ('feature_importance', 'get_depth', 'get_n_leaves', 'is_leaf'):
            return lambda: getattr(m, name)()
        return lambda: getattr(m, name)(pack(q, b['fmt']))
    if w == 'q-score':
        return lambda: m.score(np.ones((3, max(widths) + 1)), D.y[:3])
    X = bad_query(b, D, widths)
    name = b['q'] if hasattr(m, b['q']) else 'predict'
    return lambda: getattr(m, name)(X)


def run(plan, ctx):
    ms = plan['model']
    t = ms['t']
    cls = gen.is_cls(t)
    Ds = [gen.build_data(s) for s in plan['data']]
    for D in Ds:
        require(hyper_ok(ms, D.d), 'optimizer needs more than one feature')
    Qs = [gen.query_matrix(D, plan['q'], 12) for D in Ds]
    widths = sorted({D.d for D in Ds})
    k = plan['data'][0].get('k')
    bads = [op for op in plan['ops'] if op['op'] == 'bad']
    require(bads, 'no invalid request')

    def twin():
        m = gen.build_model(ms)
        out = []
        for op in plan['ops']:
            if op['op'] != 'bad':
                with stdout(Stream()):
                    m = history.apply(ctx, m, ms, op, Ds, Qs)
                out.append((obs_all(m, t, Qs), obs.params_of(m)))
        return out
    want = iter(ctx.fork(twin))
    m = gen.build_model(ms)
    cur, params = obs_all(m, t, Qs), obs.params_of(m)
    faulty = False
    for i, op in enumerate(plan['ops']):
        if op['op'] != 'bad':
            with stdout(Stream()):
                m = history.apply(ctx, m, ms, op, Ds, Qs)
            cur, params = next(want)
            faulty = faulty or op['op'] in ('fault', 'kill', 'optfail', 'verbose')
        else:
            D = Ds[op['data']]
            un = all(obs.is_untrained(o) for o in cur)
            if op['what'] == 'untrained' and not un:
                continue
            fn = request(m, op, D, cls, k, widths)
            with stdout(Stream()):
                r = ctx.do(fn, None if op['at'] is None else gen.resolve_fault(op['at'], 1 << 30))
            fired = ctx.last.threads[0].fired_at is not None
            if r[0] == 'ok':
                raise Violation('accepted', 'the invalid request {} ({}) was not rejected'.format(op['what'], op['fmt']))
            if not fired and not isinstance(r[1], ValueError):
                raise Violation('rejection', 'the invalid request {} ({}) raises {}: {}'.format(
                    op['what'], op['fmt'], type(r[1]).__name__, str(r[1])[:200]))
            ctx.probe('interrupted', fired)
            ctx.probe(op['what'] if op['what'] != 'untrained' else 'untrained-query')
            ctx.probe('untrained' if un else 'trained')
            ctx.probe('after-fault', faulty)
            ctx.probe(op['fmt'] if op['fmt'] in ('df', 'list') else 'sparse', op['fmt'] in ('df', 'list', 'csr', 'csc'))
            ctx.probe('refit-later', any(o['op'] == 'fit' for o in plan['ops'][i:]))
        got = obs_all(m, t, Qs)
        if got != cur:
            raise Violation('effect', 'after operation {} ({}): {}'.format(i, op.get('what', op['op']), describe(cur, got)))
        if obs.params_of(m) != params:
            raise Violation('params', 'operation {} ({}) changed the parameters'.format(i, op.get('what', op['op'])))
    ctx.probe('hyper', not gen.is_perp(t))
    ctx.probe('regression', not cls)
    ctx.probe('other-width', len(widths) > 1)
