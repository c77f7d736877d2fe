"""Seeded generators of data sets, models, queries, schedules and faults, and the builders that turn their JSON
specifications into objects.  All randomness comes from the random.Random handed in; builders are pure."""
import numpy as np
import pandas as pd
from scipy.sparse import csc_matrix, csr_matrix

from . import env  # noqa: F401  (seams first)
from .core import Discard

from bayesian_decision_tree.classification import HyperplaneClassificationTree, PerpendicularClassificationTree
from bayesian_decision_tree.regression import HyperplaneRegressionTree, PerpendicularRegressionTree
from bayesian_decision_tree import hyperplane_optimization as ho

MODELS = {'PC': PerpendicularClassificationTree, 'PR': PerpendicularRegressionTree,
          'HC': HyperplaneClassificationTree, 'HR': HyperplaneRegressionTree}


def is_cls(t):
    return t[1] == 'C'


def is_perp(t):
    return t[0] == 'P'


# ---- data ---------------------------------------------------------------------------------------
KINDS = ['normal', 'normal', 'grid', 'grid', 'dups', 'sparse', 'clusters', 'const', 'scaled', 'binary', 'steps']
INT_KINDS = ('grid', 'binary', 'dups')
FMT_DENSE = ['dense', 'dense', 'dense', 'F', 'stride', 'ro', 'df', 'df', 'list', 'f32', 'obj', 'be', 'ld', 'tuples', 'dfmix']
FMT_SPARSE = ['csr', 'csc', 'csr', 'csc', 'csc_unsorted', 'csr_unsorted']
SPARSE = ('csr', 'csc', 'csr_ro', 'csc_ro', 'csr_unsorted', 'csc_unsorted', 'csr_dup', 'csc_dup', 'csc_unsorted_ro', 'csr_i32', 'csc_i64', 'csc_u8', 'csr_bool', 'csc_bool')
COLUMNS = [None, 'int', 'int', 'text', 'same', 'mixed', 'multi']
FMT_INT = ['i64', 'u64', 'i8', 'u8', 'i16', 'i32', 'u16', 'u32', 'csr_i32', 'csc_i64', 'csc_u8', 'f16', 'dfmix', 'bool', 'csr_bool', 'csc_bool']


def pick_k(rng, usual):
    """Number of classes: as usual, sometimes many."""
    return rng.choice(usual) if rng.random() > 0.06 else rng.choice([5, 6, 8, 11])


def pick_d(rng, usual):
    """Number of features: as usual, sometimes many."""
    return rng.choice(usual) if rng.random() > 0.06 else rng.choice([5, 6, 8, 12])


def extreme(rng, p=0.012):
    """Now and then, sizes that narrow counters, indices or labels can not hold: {'n', 'k', 'd', 'kinds'}, else None.
    For perpendicular trees only (others take too long)."""
    if rng.random() >= p:
        return None
    r = rng.random()
    if r < 0.4:
        return {'n': rng.choice([33000, 40000, 66000]), 'k': 2, 'd': rng.choice([1, 1, 2]), 'kinds': ['grid', 'binary', 'steps']}
    if r < 0.7:
        k = rng.choice([130, 140, 260])
        return {'n': 2 * k + rng.randrange(50), 'k': k, 'd': rng.choice([1, 2]), 'kinds': ['normal', 'dups', 'steps', 'clusters']}
    return {'n': rng.choice([8, 16, 30]), 'k': 2, 'd': rng.choice([130, 260, 300]), 'kinds': ['normal', 'grid', 'sparse', 'binary']}


def targets(rng, ms, data):
    """Regression targets with a large common offset, in single precision, or large integers."""
    for j, s in enumerate(data):
        r = rng.random()
        if r < 0.12:
            s['yoff'] = rng.choice([1e4, 1e6, 1e8, -1e7, 1e9])
            if r < 0.04:
                s['yoff'], s['yfmt'] = rng.choice([100.0, 1000.0, 1e4]), 'f32'
            if ms['prior'] is not None and j == 0 and rng.random() < 0.75:
                ms['prior'][0] = s['yoff'] + ms['prior'][0]
        elif r < 0.16:
            s['yfmt'] = 'f32'
        elif r < 0.2:
            s['yint'], s['yfmt'] = rng.choice([20.0, 1e5, 4e9]), 'i64'
            if ms['prior'] is not None and j == 0:
                ms['prior'][3] *= s['yint'] ** 2


def wide_n(rng, n, p=0.05):
    """Number of rows: as usual, sometimes many."""
    return n if rng.random() > p else rng.choice([70, 100, 130, 200, 260])


def data_spec(rng, cls, n=None, d=None, k=None, formats=True, kinds=KINDS):
    kind = rng.choice(kinds)
    s = {'seed': rng.randrange(1 << 30), 'n': n or wide_n(rng, rng.choice([3, 5, 8, 12, 16, 20, 28, 40, 60])),
         'd': d or rng.choice([1, 2, 2, 3, 4]), 'kind': kind, 'cls': bool(cls),
         'noise': rng.choice([0.0, 0.1, 0.3, 1.0]), 'rule': rng.choice(['lin', 'axis', 'xor', 'tree', 'rand']),
         'fmt': 'dense', 'yfmt': 'array'}
    if cls:
        s['k'] = k or rng.choice([2, 2, 2, 3, 4])
        if rng.random() < 0.25:
            s['imb'] = rng.choice([0.3, 3, 8])      # some classes are rare
        if s['k'] > 4:
            s['n'] = max(s['n'], 2 * s['k'])
    else:
        s['yq'] = rng.choice([0, 0, 1, 2])     # decimals the targets are rounded to (0: not rounded)
    if formats:
        s['fmt'] = fmt_for(rng, kind)
        s['yfmt'] = rng.choice(['array', 'array', 'array', 'list', 'float', 'ro', 'col', 'series', 'frame', 'be', 'obj', 'tuple', 'nullable'])
        if cls and s['k'] == 2 and rng.random() < 0.06:
            s['yfmt'] = 'bool'
        if s['fmt'] == 'df':
            s['cols'] = rng.choice(COLUMNS)
    return s


def special(rng, ms, s, p=0.05):
    """Now and then, missing values, and (for splits along one feature) infinities and values whose sums overflow."""
    if rng.random() < p:
        s['post'] = rng.choice(['nan', 'nan', 'inf', 'max', 'mix'] if is_perp(ms['t']) else ['nan'])
        s['fmt'] = rng.choice(['dense', 'dense', 'F', 'ro', 'df', 'list', 'csr', 'csc', 'csc_unsorted'])
        s['kind'] = rng.choice(['normal', 'grid', 'dups', 'sparse', 'clusters', 'binary', 'steps'])


def post(X, how, seed):
    """X with some values replaced by missing, infinite or very large ones."""
    rs = np.random.RandomState(seed % (1 << 31))
    X = X.copy()
    if how == 'max':
        top = np.abs(X).max()
        return X / (top if top > 0 else 1) * 1.7e308
    u = rs.uniform(size=X.shape)
    if how in ('nan', 'mix'):
        X[u < 0.15] = np.nan
    if how in ('inf', 'mix'):
        X[u > 0.85] = np.inf
        X[u > 0.92] = -np.inf
    return X


def fmt_for(rng, kind):
    r = rng.random()
    if r < 0.25:
        return rng.choice(FMT_SPARSE)
    if kind == 'binary' and r < 0.5:
        return rng.choice(FMT_INT)
    if kind in INT_KINDS and r < 0.5:
        return rng.choice(FMT_INT[:-3])
    return rng.choice([f for f in FMT_DENSE if f != 'f32' or kind != 'huge'])


def raw_X(rs, kind, n, d):
    if kind == 'normal':
        return rs.normal(size=(n, d))
    if kind == 'grid':
        return rs.randint(0, 5, size=(n, d)).astype(float)
    if kind == 'dups':
        base = rs.randint(0, 100, size=(max(1, n // 3), d)).astype(float)
        return base[rs.randint(0, len(base), size=n)]
    if kind == 'sparse':
        return np.where(rs.uniform(size=(n, d)) < 0.6, 0.0, np.round(rs.normal(size=(n, d)), 2))
    if kind == 'clusters':
        c = rs.normal(scale=3, size=(3, d))
        return c[rs.randint(0, 3, size=n)] + 0.3 * rs.normal(size=(n, d))
    if kind == 'const':
        X = rs.normal(size=(n, d))
        X[:, rs.randint(0, d)] = 1.0
        return X
    if kind == 'scaled':
        return rs.normal(size=(n, d)) * 10.0 ** rs.randint(-6, 7, size=d)
    if kind == 'binary':
        return rs.randint(0, 2, size=(n, d)).astype(float)
    if kind == 'steps':
        return np.round(rs.uniform(0, 3, size=(n, d)), 1)
    if kind == 'adjacent':
        b = rs.uniform(1, 2, size=(1, d)) * 10.0 ** rs.randint(-3, 4)
        out = np.repeat(b, n, axis=0)
        for i in range(n):
            for j in range(d):
                for _ in range(rs.randint(0, 4)):
                    out[i, j] = np.nextafter(out[i, j], np.inf)
        return out
    if kind == 'near':      # neighbours that single precision can not tell apart
        b = rs.randint(1, 8, size=(n, d)).astype(float)
        return b + rs.choice([0, 1e-8, 2e-8, 3e-8], size=(n, d))
    if kind == 'same':      # nothing to split
        return np.repeat(np.round(rs.normal(size=(1, d)), 2), n, axis=0)
    if kind == 'two':       # two distinct rows
        return np.round(rs.normal(size=(2, d)), 2)[rs.randint(0, 2, size=n)]
    if kind == 'ids':
        return 2.0 ** 54 + 4.0 * rs.randint(0, 12, size=(n, d))
    if kind == 'huge':
        return rs.normal(size=(n, d)) * 1e100
    raise ValueError(kind)


def score_rule(rs, rule, X):
    n, d = X.shape
    sd = X.std(axis=0)
    Z = (X - np.median(X, axis=0)) / np.where(sd > 0, sd, 1)
    if rule == 'lin':
        return Z @ rs.normal(size=d)
    if rule == 'axis':
        return Z[:, rs.randint(0, d)]
    if rule == 'xor':
        return np.sign(Z[:, 0] - 0.1) * np.sign(Z[:, d - 1] + 0.1) + 0.01 * Z[:, 0]
    if rule == 'tree':
        s = np.zeros(n)
        for w in (4, 2, 1):
            s += w * (Z[:, rs.randint(0, d)] > rs.normal(scale=0.7))
        return s
    return rs.normal(size=n)


class Data:
    pass


def build_data(s):
    """A Data object: X, y canonical float64 values; Xin, yin what is handed to the library."""
    rs = np.random.RandomState(s['seed'])
    n, d = s['n'], s['d']
    if n < 1 or d < 1:
        raise Discard('no data')
    X = raw_X(rs, s['kind'], n, d)
    if s['fmt'] == 'f32':
        X = X.astype(np.float32).astype(np.float64)
        if not np.all(np.isfinite(X)):
            raise Discard('values do not fit f32')
    z = score_rule(rs, s['rule'], X) + s['noise'] * rs.normal(size=n)
    if s['cls']:
        k = s['k']
        if n < k:
            raise Discard('fewer rows than classes')
        order = np.argsort(np.argsort(z, kind='stable'), kind='stable')
        y = (order * k // n).astype(int) if s.get('imb', 1) == 1 else (k * (order / n) ** s['imb']).astype(int)
        flip = rs.uniform(size=n) < 0.15 * s['noise']
        y = np.where(flip, rs.randint(0, k, size=n), y)
        perm = rs.permutation(n)
        for c in range(k):
            if not np.any(y == c):
                y[perm[c]] = c
        if len(np.unique(y)) != k:
            for c in range(k):
                if not np.any(y == c):
                    y[np.where(y == np.bincount(y, minlength=k).argmax())[0][0]] = c
    else:
        y = np.asarray(z, dtype=float) * s.get('yscale', 1.0) + s.get('yoff', 0.0)
        if s.get('yq'):
            y = np.round(y, s['yq'])
        if s.get('yround'):
            y = np.clip(np.round(y), -120, 120)
        if s.get('yint'):
            y = np.round(y * s['yint'])
        if s['yfmt'] == 'f32':
            y = y.astype(np.float32).astype(np.float64)
        if s.get('yconst'):
            y = np.full(n, 0.5)
    if s.get('keep') is not None:
        keep = [i for i in s['keep'] if i < n]
        X, y = X[keep], y[keep]
        if len(y) == 0 or s['cls'] and len(np.unique(y)) != s['k']:
            raise Discard('class missing')
    if len(y) < 2:
        raise Discard('fewer than two rows')
    if s.get('post'):
        X = post(X, s['post'], s['seed'])
    D = Data()
    D.spec = s
    D.X, D.y = X.copy(), y.astype(float)
    D.n, D.d = X.shape
    D.Xin = format_X(X, s['fmt'], s['seed'])
    if s['fmt'] == 'df' and s.get('cols'):
        D.Xin.columns = columns(s['cols'], D.d)
    if s['kind'] == 'ids' and s['fmt'] in ('i64', 'u64'):
        # integers that double precision can not tell apart
        D.Xin = D.Xin + np.random.RandomState(s['seed']).randint(-1, 2, size=D.X.shape).astype(D.Xin.dtype)
        D.X = D.Xin.astype(float)
    D.yin = format_y(y, s['yfmt'])
    return D


def format_X(X, fmt, seed=0):
    if fmt == 'dense':
        return X.copy()
    if fmt == 'F':
        return np.asfortranarray(X)
    if fmt == 'stride':
        big = np.full((X.shape[0] * 2, X.shape[1] * 2), 7.5)
        big[::2, ::2] = X
        return big[::2, ::2]
    if fmt == 'neg':
        return X[::-1, ::-1].copy()[::-1, ::-1]
    if fmt == 'ro':
        r = X.copy()
        r.setflags(write=False)
        return r
    if fmt == 'df':
        df = pd.DataFrame(X.copy(), columns=['f{}'.format(i) for i in range(X.shape[1])])
        df.index = list(range(100, 100 + len(df)))[::-1]
        return df
    if fmt == 'list':
        return X.tolist()
    if fmt == 'f32':
        return X.astype(np.float32)
    if fmt == 'obj':
        return X.astype(object)
    if fmt in ('csr', 'csc'):
        m = (csr_matrix if fmt == 'csr' else csc_matrix)(X)
        return m
    if fmt.endswith('_ro'):
        m = format_X(X, fmt[:-3], seed)
        for a in (m.data, m.indices, m.indptr):
            a.setflags(write=False)
        return m
    if fmt in ('csr_unsorted', 'csc_unsorted', 'csr_dup', 'csc_dup'):
        # legal, but not canonical: explicit zeros and unsorted minor indices, or entries in two parts
        csr = fmt.startswith('csr')
        A = X if csr else X.T
        n, d = A.shape
        rs = np.random.RandomState(seed % (1 << 31))
        parts = 2 if fmt.endswith('_dup') else 1
        cols = [rs.permutation(np.repeat(np.arange(d), parts)) for _ in range(n)]
        data = np.concatenate([np.where(np.abs(A[i, cols[i]]) <= 1e-300, 0.0, A[i, cols[i]] / 2) for i in range(n)]) if n else np.zeros(0)
        if parts == 2:
            for i in range(n):      # values too small to be cut in two
                for j in np.where((A[i] != 0) & (np.abs(A[i]) <= 1e-300))[0]:
                    data[2 * d * i + np.where(cols[i] == j)[0][0]] = A[i, j]
        else:
            data = np.concatenate([A[i, cols[i]] for i in range(n)]) if n else np.zeros(0)
        cols = np.concatenate(cols) if n else np.zeros(0, int)
        return (csr_matrix if csr else csc_matrix)((data, cols, np.arange(0, parts * n * d + 1, parts * d)), shape=X.shape)
    if fmt == 'be':
        return X.astype('>f8')
    if fmt == 'ld':
        return X.astype(np.longdouble)
    if fmt == 'tuples':
        return [tuple(r) for r in X.tolist()]
    if fmt == 'dfmix':      # columns of different types
        df = pd.DataFrame({'f{}'.format(j): X[:, j] for j in range(X.shape[1])}, index=list(range(100, 100 + len(X)))[::-1])
        for j, c in enumerate(df.columns):
            for t in ('int64', 'int8', 'bool', 'Int64')[(seed + j) % 4:]:
                with np.errstate(all='ignore'):
                    if t not in ('Int64', 'bool') and np.array_equal(X[:, j].astype(t).astype(float), X[:, j]) or \
                            t == 'Int64' and np.array_equal(X[:, j], np.round(X[:, j])) and np.abs(X[:, j]).max(initial=0) < 1e6 or \
                            t == 'bool' and np.isin(X[:, j], [0, 1]).all():
                        df[c] = df[c].astype(t)
                        break
        return df
    if fmt in ('csr_i32', 'csc_i64', 'csc_u8', 'csr_bool', 'csc_bool'):
        Xi = format_X(X, fmt[4:], seed)
        return (csr_matrix if fmt[:3] == 'csr' else csc_matrix)(Xi)
    m = {'f16': np.float16, 'i64': np.int64, 'i8': np.int8, 'u8': np.uint8, 'i16': np.int16, 'i32': np.int32, 'u16': np.uint16,
         'u32': np.uint32, 'u64': np.uint64, 'bool': bool}[fmt]
    with np.errstate(all='ignore'):
        Xi = X.astype(m)
    if not np.array_equal(Xi.astype(float), X):
        raise Discard('values do not fit {}'.format(fmt))
    return Xi


def columns(kind, d):
    """Column headers of a DataFrame."""
    if kind == 'int':
        return [3 * (d - i) for i in range(d)]
    if kind == 'text':
        return ['a = {} (%)'.format(i) if i % 2 else '{} \u00b5m: <{}'.format(i, i) for i in range(d)]
    if kind == 'same':
        return ['f'] * d
    if kind == 'mixed':
        return [i if i % 2 else 'x{}'.format(d - i) for i in range(d)]
    return pd.MultiIndex.from_tuples([('a', i) for i in range(d)])


def format_names(names, fmt):
    """A sequence of feature names."""
    d = len(names)
    return {'list': lambda: list(names), 'tuple': lambda: tuple(names), 'array': lambda: np.array(names), 'index': lambda: pd.Index(names),
            'series': lambda: pd.Series(names), 'series_rev': lambda: pd.Series(names, index=list(range(d))[::-1]),
            'series_off': lambda: pd.Series(names, index=range(10, 10 + d)),
            'series_str': lambda: pd.Series(names, index=['i{}'.format(i) for i in range(d)])}[fmt]()


def format_y(y, fmt):
    if fmt == 'array':
        return y.copy()
    if fmt == 'list':
        return y.tolist()
    if fmt == 'float':
        return y.astype(float)
    if fmt == 'ro':
        r = y.copy()
        r.setflags(write=False)
        return r
    if fmt in ('f32', 'i64'):
        return y.astype(np.float32 if fmt == 'f32' else np.int64)
    if fmt == 'be':
        return y.astype('>f8' if y.dtype.kind == 'f' else '>i4')
    if fmt == 'obj':
        return y.astype(object)
    if fmt == 'tuple':
        return tuple(y.tolist())
    if fmt == 'bool':
        if not np.isin(y, [0, 1]).all():
            raise Discard('targets are not boolean')
        return y.astype(bool)
    if fmt == 'nullable':
        return pd.Series(y, dtype='Int64' if y.dtype.kind == 'i' else 'Float64')
    if fmt == 'col':
        return y.reshape(-1, 1).copy() if len(y) > 1 else y.copy()
    if fmt == 'series':
        return pd.Series(y.copy(), index=list(range(1000, 1000 + len(y)))[::-1])
    if fmt == 'frame':
        return pd.DataFrame({'y': y}, index=list(range(1000, 1000 + len(y)))[::-1])
    if fmt in ('i8', 'u8', 'i16', 'i32'):
        t = {'i8': np.int8, 'u8': np.uint8, 'i16': np.int16, 'i32': np.int32}[fmt]
        if not np.array_equal(y.astype(t).astype(float), y.astype(float)):
            raise Discard('targets do not fit {}'.format(fmt))
        return y.astype(t)
    raise ValueError(fmt)


# ---- models -------------------------------------------------------------------------------------
def opt_spec(rng, cls, d, cheap=True):
    """A built-in optimizer."""
    kinds = ['DE', 'RH', 'RH', 'SA', 'GD', 'QR', 'QR', 'OP'] + (['R2P', 'R2P'] if cls else [])
    o = rng.choice(kinds)
    s = {'o': o, 'seed': rng.choice([0, 1, rng.randrange(1000), rng.randrange(1000), rng.randrange(1 << 32)])}
    if o == 'DE':
        s.update(maxiter=rng.choice([1, 2, 3]), popsize=rng.choice([2, 3]), polish=rng.random() < 0.5)
    elif o in ('RH', 'R2P', 'QR', 'OP'):
        s['n'] = rng.choice([1, 3, 6, 12])
    elif o == 'SA':
        s.update(n_scan=rng.choice([2, 4]), n_keep=rng.choice([1, 2]), spread=rng.choice([0.5, 0.95]))
    elif o == 'GD':
        s.update(n_init=rng.choice([2, 4]), n_keep=rng.choice([1, 2]))
    return s


def build_opt(s):
    if s is None:
        return None
    o = s['o']
    if o == 'DE':
        kw = dict(maxiter=s['maxiter'], popsize=s['popsize'], polish=s.get('polish', True))
        return ho.ScipyOptimizer(env.scipy.optimize._differentialevolution.DifferentialEvolutionSolver, s['seed'], **kw)
    if o == 'RH':
        return ho.RandomHyperplaneOptimizer(s['n'], s['seed'])
    if o == 'OP':
        return ho.OptunaOptimizer(s['n'], s['seed'])
    if o == 'R2P':
        return ho.RandomTwoPointOptimizer(s['n'], s['seed'])
    if o == 'QR':
        return ho.QuasiRandomHyperplaneOptimizer(s['n'])
    if o == 'SA':
        return ho.SimulatedAnnealingOptimizer(s['n_scan'], s['n_keep'], s['spread'], s['seed'])
    if o == 'GD':
        return ho.GradientDescentOptimizer(s['n_init'], s['n_keep'])
    if o == 'SIM':
        from .simopt import SimOptimizer
        return SimOptimizer(s)
    raise ValueError(o)


def model_spec(rng, types=('PC', 'PR', 'HC', 'HR'), k=2, d=2, delta=True):
    t = rng.choice(types)
    s = {'t': t, 'pp': rng.choice([0.5, 0.9, 0.9, 0.99, 0.3, 0.1, 0.9, 0.9999]), 'prune': rng.random() < 0.4, 'delta': 0,
         'sp': rng.choice([0.0, 0.0, 0.0, 0.0, 0.05, 0.5])}
    s['prior'] = prior_spec(rng, t, k)
    s['pk'] = rng.choice(['array', 'array', 'list', 'tuple', 'ro', 'int'])
    if is_perp(t):
        if delta and rng.random() < 0.35:
            s['delta'] = rng.choice([0.1, 0.5, 1.0, 1, 0.03])
    else:
        s['opt'] = opt_spec(rng, is_cls(t), d)
    return s


def prior_spec(rng, t, k):
    if is_cls(t):
        return rng.choice([[1.0] * k, [0.5] * k, [10.0] * k, [0.02] * k, [100.0] * k, [round(rng.uniform(0.2, 4), 2) for _ in range(k)]])
    if rng.random() < 0.15:
        return None
    return [rng.choice([0.0, 0.3, -1.0]), rng.choice([0.1, 1.0, 3.0]), rng.choice([0.5, 1.0, 2.0]),
            rng.choice([0.05, 0.5, 1.0])]


def build_prior(s):
    p = s['prior']
    if p is None:
        return None
    if s['pk'] == 'list':
        return list(p)
    if s['pk'] == 'tuple':
        return tuple(p)
    a = np.array(p, dtype=float)
    if s['pk'] == 'int' and np.array_equal(a, a.astype(int)):
        a = a.astype(int)
    if s['pk'] == 'ro':
        a.setflags(write=False)
    return a


def build_model(s, opt=None, prior=None):
    kw = dict(partition_prior=s['pp'], prior=build_prior(s) if prior is None else prior, delta=s['delta'],
              prune=s['prune'], split_precision=s['sp'])
    if not is_perp(s['t']):
        kw['optimizer'] = build_opt(s['opt']) if opt is None else opt
    return MODELS[s['t']](**kw)


# ---- queries ------------------------------------------------------------------------------------
def query_matrix(D, seed, n=24):
    """Rows that reach all parts of a tree trained on D: random points in and around its range, training rows,
    midpoints between training rows."""
    rs = np.random.RandomState(seed % (1 << 31))
    F = np.where(np.isfinite(D.X), D.X, 0.0)
    lo, hi = F.min(axis=0), F.max(axis=0)
    w = np.where(hi > lo, np.minimum(hi - lo, 1e308), 1.0)
    a = lo + w * rs.uniform(-0.2, 1.2, size=(n // 2, D.d))
    i, j = rs.randint(0, D.n, size=n // 4), rs.randint(0, D.n, size=n // 4)
    b = 0.5 * D.X[i] + 0.5 * D.X[j]
    c = D.X[rs.randint(0, D.n, size=n - len(a) - len(b))]
    return np.vstack([a, b, c])


# ---- schedules and faults -----------------------------------------------------------------------
def sched_spec(rng, scale=3000):
    """An interleaving: either a few switches at arbitrary depths or many short time slices."""
    r = rng.random()
    if r < 0.3:
        # switch just before writes to shared state: where check-then-act sequences break
        mean = rng.choice([1, 2, 4, 10, 30])
        return {'unit': 'store', 'switches': [[1 + int(rng.expovariate(1.0 / mean)), rng.randrange(6)] for _ in range(60)],
                'fin': [rng.randrange(6) for _ in range(4)]}
    if r < 0.45:
        # switch right after calls and at loop heads: between an operation and the use of its result
        mean = rng.choice([1, 2, 5, 15, 40])
        return {'unit': 'point', 'switches': [[1 + int(rng.expovariate(1.0 / mean)), rng.randrange(6)] for _ in range(80)],
                'fin': [rng.randrange(6) for _ in range(4)]}
    if r < 0.65:
        k = rng.choice([1, 1, 2, 3, 4, 6])
        pos = sorted(int(scale * rng.random() ** 1.5) + 1 for _ in range(k))
        gaps = [pos[0]] + [max(1, b - a) for a, b in zip(pos, pos[1:])]
    else:
        mean = rng.choice([2, 5, 15, 60, 200])
        k = min(400, 1 + scale // mean)
        gaps = [1 + int(rng.expovariate(1.0 / mean)) for _ in range(k)]
    return {'switches': [[g, rng.randrange(6)] for g in gaps], 'fin': [rng.randrange(6) for _ in range(4)]}


def fault_spec(rng, kinds=('interrupt', 'memory', 'error', 'exit'), burst=False):
    """One fault, or (if burst) one that goes on for a while."""
    f = _fault_spec(rng, kinds)
    if burst and rng.random() < 0.3:
        f.append(rng.choice([2, 3, 10, 50, 300]))
    return f


def _fault_spec(rng, kinds):
    r = rng.random()
    kind = rng.choice(kinds)
    if r < 0.55:
        return [kind, 'frac', round(rng.random(), 4)]
    if r < 0.8:
        return [kind, 'end', rng.randrange(60)]
    return [kind, 'start', rng.randrange(60)]


def resolve_fault(f, points):
    """(fault point number, kind) for an operation that passes `points` fault points when it is left alone."""
    if f is None:
        return None
    kind, how, v = f[:3]
    p = int(v * points) if how == 'frac' else points - 1 - v if how == 'end' else v
    return (max(1, min(p + 1, max(points, 1))), kind) + tuple(f[3:])


def tame(ms, data):
    """Keeps runs of the costly optimizers short."""
    if not is_perp(ms['t']):
        o = (ms.get('opt') or {'o': 'DE'})['o']
        cap = {'SA': 12, 'GD': 16, 'DE': 20}.get(o, 40)
        for s in data:
            s['n'] = min(s['n'], cap)
