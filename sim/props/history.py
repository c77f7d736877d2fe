"""Seeded operation histories of one estimator: fits, failing and rejected fits, queries, interrupted queries, parameter
changes, copies and restores.  Used by the properties that speak about `any history of operations and faults`."""
import copy
import pickle

import numpy as np

from .common import *  # noqa: F401,F403
from ..simopt import FailingOptimizer

OPS = ['fit', 'fault', 'fault', 'reject', 'query', 'kill', 'copy', 'params', 'verbose', 'optfail']


def gen_history(rng, ms, n_data, n_ops):
    ops = []
    for _ in range(n_ops):
        o = rng.choice(OPS)
        op = {'op': o, 'data': rng.randrange(n_data)}
        if o in ('fault', 'kill'):
            op['at'] = gen.fault_spec(rng, burst=True)
        if o in ('query', 'kill'):
            op['q'] = rng.choice(obs.query_names(ms['t']))
        if o == 'reject':
            op['how'] = rng.choice(['length', 'classes', 'ndim', 'string', 'qdim'])
        if o == 'params':
            op['set'] = rng.choice([{'pp': 0.7}, {'prune': True}, {'prune': False}, {'sp': 0.3}, {'pp': 0.99}])
        if o == 'optfail':
            op['k'] = rng.choice([1, 2, 5, 9])
        if o == 'verbose':
            op['k'] = rng.choice([None, 1, 2, 4])
            op['err'] = rng.choice(STREAM_ERRS)
        if o == 'copy':
            op['how'] = rng.choice(['copy', 'deepcopy', 'pickle'])
        ops.append(op)
    return ops


NAMES = {'pp': 'partition_prior', 'prune': 'prune', 'sp': 'split_precision'}


def apply(ctx, m, ms, op, Ds, Qs, opt_inner=None):
    """Carries one operation out.  Returns the (possibly different) estimator object that continues the history."""
    D, Q = Ds[op['data']], Qs[op['data']]
    o = op['op']
    if o == 'fit':
        ctx.do(lambda: fit(m, D))
    elif o == 'fault':
        # the number of fault points of this training is measured on a copy in a process of its own
        def measure():
            c = copy.deepcopy(m)
            s = ctx.sim()
            s.run(lambda: fit(c, D))
            return s.threads[0].points
        pts = ctx.fork(measure)
        ctx.do(lambda: fit(m, D), gen.resolve_fault(op['at'], pts))
    elif o == 'optfail':
        if not gen.is_perp(ms['t']):
            inner = m.optimizer
            m.optimizer = f = FailingOptimizer(inner, op['k'])
            ctx.do(lambda: fit(m, D))
            m.optimizer = inner
            ctx.fault('evaluation', f.fired)
    elif o == 'verbose':
        with stdout(Stream(op['k'], op['err'])) as st:
            ctx.do(lambda: fit(m, D, verbose=True))
        ctx.fault('stream', st.fired)
    elif o == 'reject':
        ctx.do(lambda: reject(m, D, op['how'], ms))
    elif o == 'query':
        ctx.do(lambda: obs.call(m, op['q'], Q))
    elif o == 'kill':
        def measure():
            s = ctx.sim()
            s.run(lambda: obs.call(m, op['q'], Q))
            return s.threads[0].points
        pts = ctx.fork(measure)
        ctx.do(lambda: obs.call(m, op['q'], Q), gen.resolve_fault(op['at'], pts))
    elif o == 'params':
        m.set_params(**{NAMES[k]: v for k, v in op['set'].items()})
    elif o == 'copy':
        m = {'copy': copy.copy, 'deepcopy': copy.deepcopy, 'pickle': lambda x: pickle.loads(pickle.dumps(x))}[op['how']](m)
    ctx.probe('op:' + o)
    return m


def reject(m, D, how, ms):
    y = np.asarray(D.y)
    if how == 'length':
        return m.fit(D.X, np.concatenate([y, y[:1]]))
    if how == 'classes':
        return m.fit(D.X, y + 5.0 if gen.is_cls(ms['t']) else np.array([['a', 'b']] * len(y)))
    if how == 'ndim':
        return m.fit(np.zeros((2, 2, 2)), y)
    if how == 'string':
        return m.fit([['a'] * D.d] * D.n, y)
    return m.predict(np.zeros((2, D.d + 1)))


def final_params(ms, ops):
    """The model specification after the parameter changes of a history."""
    ms = dict(ms)
    for op in ops:
        if op['op'] == 'params':
            ms.update(op['set'])
    return ms
