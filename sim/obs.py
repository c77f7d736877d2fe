"""What a caller can see of a model, in a form that compares exactly."""
import numpy as np
from scipy.sparse import issparse

from .core import SimDeadlock, StepBudget


def freeze(v):
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ('ndo', v.shape, tuple(freeze(x) for x in v.ravel().tolist()))
        return ('nd', v.shape, v.dtype.str, np.ascontiguousarray(v).tobytes())
    if isinstance(v, np.generic):
        return freeze(np.asarray(v))
    if isinstance(v, float):
        return ('f', v.hex() if v == v else 'nan')
    if isinstance(v, (list, tuple)):
        return ('seq', tuple(freeze(x) for x in v))
    if isinstance(v, dict):
        return ('map', tuple(sorted((repr(k), freeze(x)) for k, x in v.items())))
    if issparse(v):
        return ('sp', v.format, v.shape, freeze(v.data), freeze(v.indices), freeze(v.indptr))
    return ('o', type(v).__name__, repr(v))


def outcome(fn, *a):
    """('ok', frozen answer) or ('exc', exception type name); simulator conditions pass through."""
    try:
        return ('ok', freeze(fn(*a)))
    except (StepBudget, SimDeadlock):
        raise
    except Exception as e:
        return ('exc', type(e).__name__)


def query_names(model_type):
    q = ['predict', 'feature_importance', 'str', 'get_depth', 'get_n_leaves', 'is_fitted']
    q.append('predict_proba' if model_type[1] == 'C' else 'predict_')
    if model_type[0] == 'P':
        q.append('prediction_paths')
    return [n for n in q if n != 'predict_']


NEEDS_X = ('predict', 'predict_proba', 'prediction_paths')


def call(model, name, Q):
    if name == 'str':
        return str(model)
    if name == 'repr':
        return repr(model)
    f = getattr(model, name)
    return f(Q) if name in NEEDS_X else f()


def observe(model, model_type, Q):
    """Every answer the model gives, as a dict of exact values."""
    return {n: outcome(call, model, n, Q) for n in query_names(model_type)}


def diff(a, b):
    """Names of the queries that are answered differently."""
    return [k for k in a if a[k] != b.get(k)] + [k for k in b if k not in a]


def show(o):
    return {k: (v if v[0] == 'exc' else _short(v[1])) for k, v in o.items()}


def _short(f):
    if f[0] == 'nd':
        return np.frombuffer(f[3], dtype=f[2]).reshape(f[1]).tolist().__repr__()[:160]
    return repr(f)[:160]


UNTRAINED_ERR = ('exc', 'ValueError')


def is_untrained(o):
    """The model reports itself untrained and rejects every query with ValueError (printing excepted)."""
    if o['is_fitted'] != ('ok', ('o', 'bool', 'False')):
        return False
    return all(v == UNTRAINED_ERR for k, v in o.items() if k not in ('is_fitted', 'str')) and o['str'][0] == 'ok'


def params_of(model):
    """The estimator's parameters as a caller sees them."""
    return {k: freeze(v) if not hasattr(v, 'solve') else freeze(vars(v)) for k, v in
            sorted(model.get_params(deep=False).items())}


class Watch:
    """Byte-exact snapshots of objects the caller owns; calling it returns a message if one of them changed."""
    def __init__(self):
        self.items = []

    def add(self, name, obj):
        for part, get in _parts(obj):
            self.items.append((name + part, get, get()))
        return self

    def __call__(self):
        for name, get, before in self.items:
            if get() != before:
                return '{} was modified'.format(name)
        return None


def _frame(o):
    """Snapshots of a DataFrame.  Headers and types are described only when an object that holds them was replaced (that
    is slow); they can not be changed in place."""
    def meta():
        return (o.shape, type(o.columns).__name__, repr(list(o.columns)), repr(o.columns.names), o.index.values.tobytes(),
                repr(o.index.names), tuple(str(t) for t in o.dtypes))

    def held():
        return [o.columns, o.index] + list(o._mgr.arrays)

    def content(h):
        return tuple(a.tobytes() if isinstance(a, np.ndarray) and a.dtype != object else repr(a.tolist()) for a in h[2:])
    h0, m0 = held(), meta()
    n0 = o.columns.names, o.index.names

    def get():
        h = held()
        if len(h) == len(h0) and all(a is b for a, b in zip(h, h0)) and (o.columns.names, o.index.names) == n0:
            return m0, content(h)
        return meta(), content(h)
    return get


def _parts(o):
    import pandas as pd
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            yield '', lambda: (o.shape, repr(o.tolist()))
        else:
            b = o if o.base is None or not isinstance(o.base, np.ndarray) else o.base
            yield '', lambda: (o.shape, o.strides, o.dtype.str, o.flags.writeable, b.tobytes())
    elif issparse(o):
        yield '', lambda: (o.shape, o.format, o.data.tobytes(), o.indices.tobytes(), o.indptr.tobytes(), o.dtype.str)
    elif isinstance(o, pd.DataFrame):
        yield '', _frame(o)
    elif isinstance(o, pd.Series):
        yield '', lambda: (o.shape, o.index.values.tobytes(), str(o.dtype), o.to_numpy().tobytes())
    elif hasattr(o, 'solve'):
        yield '', lambda: repr(sorted((k, repr(v)) for k, v in vars(o).items()))
    else:
        yield '', lambda: repr(o)
