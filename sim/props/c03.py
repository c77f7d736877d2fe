"""C03  Queries never change a trained model, even when interrupted."""
import copy
import pickle

import numpy as np
import pandas as pd
from scipy.sparse import issparse
from sklearn.base import clone

from .common import *  # noqa: F401,F403

ID = 'C03'
RUNS = {'quick': 2500, 'thorough': 60000}
REAL = REAL_CORE + ['scikit-learn clone']
STUB = STUB_CORE + ['asynchronous exceptions']
ASSUMPTIONS = ASSUME_CORE
RULE = ('A run trains a model, takes the answers to all questions in a separate process, and then asks a seeded sequence of '
        'questions - repeated, rejected, killed at a seeded instant, in all storage formats, interleaved with printing, '
        'copying, saving and scoring; the caller overwrites answers it got and the data it trained with - comparing every answer and finally all answers.  Non-trivial: at least one question '
        'was asked of a split tree.')
PROBES = ['split-trees', 'interrupt', 'memory', 'exit', 'error', 'rejected', 'killed', 'q:prediction_paths', 'q:feature_importance',
          'q:pickle', 'q:clone', 'q:score', 'hyper', 'pruned', 'sparse-query', 'reused-data', 'reused-answer']

EXTRA = ['repr', 'pickle', 'copy', 'deepcopy', 'clone', 'get_params', 'score', 'leaf', 'raw', 'wrongdim', 'garbage']


def gen_plan(rng, tier):
    cls = rng.random() < 0.6
    k = gen.pick_k(rng, [2, 2, 3])
    d = gen.pick_d(rng, [1, 2, 2, 3])
    ms = gen.model_spec(rng, types=('PC', 'HC') if cls else ('PR', 'HR'), k=k, d=d)
    data = [gen.data_spec(rng, cls, d=d, k=k)]
    gen.tame(ms, data)
    n_q = rng.choice([1, 2, 3])
    qs = [{'seed': rng.randrange(1 << 20), 'n': rng.choice([4, 8, 24, 24, 140, 270]), 'fmt': rng.choice(['dense', 'F', 'csr', 'csc', 'csc_unsorted', 'df', 'list',
                                                                                       'stride', 'ro', 'f32'])}
          for _ in range(n_q)]
    names = obs.query_names(ms['t'])
    ops = []
    for _ in range(rng.choice([2, 4, 8, 12])):
        op = {'q': rng.choice(names) if rng.random() < 0.65 else rng.choice(EXTRA), 'x': rng.randrange(n_q), 'fault': None}
        if rng.random() < 0.35:
            op['fault'] = gen.fault_spec(rng, burst=True)
        op['scribble'] = rng.random() < 0.3
        ops.append(op)
    return {'model': ms, 'data': data, 'qs': qs, 'ops': ops, 'reuse': rng.random() < 0.3}


def ask(m, name, Q, D, answers=None):
    a = _ask(m, name, Q, D)
    if answers is not None:
        answers.append(a)
    return a


def _ask(m, name, Q, D):
    if name in ('repr', 'pickle', 'copy', 'deepcopy', 'clone', 'get_params', 'score', 'leaf', 'raw', 'wrongdim', 'garbage'):
        if name == 'repr':
            return repr(m)
        if name == 'pickle':
            return len(pickle.dumps(m)) > 0
        if name == 'copy':
            return str(copy.copy(m))
        if name == 'deepcopy':
            return str(copy.deepcopy(m))
        if name == 'clone':
            return str(clone(m))
        if name == 'get_params':
            return sorted(m.get_params(deep=False))
        if name == 'score':
            return m.score(D.X, D.y)
        if name == 'leaf':
            return m.is_leaf()
        if name == 'raw':
            f = getattr(m, '_get_raw_leaf_data', None)
            return f(Q) if f is not None and m.prior is not None else None
        if name == 'wrongdim':
            return m.predict(gen.np.zeros((2, D.d + 1)))
        return m.predict([['a'] * D.d])
    return obs.call(m, name, Q)


def reuse(a):
    """What a caller may do with the memory of an object that is its own."""
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            for x in a.ravel():
                reuse(x)
        elif a.flags.writeable:
            a[...] = a.dtype.type(1)
    elif issparse(a):
        for x in (a.data, a.indices):
            if x.flags.writeable:
                x[...] = 0
    elif isinstance(a, (pd.DataFrame, pd.Series)):
        a.iloc[...] = a.iloc[0, 0] if a.ndim == 2 else a.iloc[0]
    elif isinstance(a, list):
        for x in a:
            reuse(x)
        if a and not isinstance(a[0], list):
            a[:] = a[:1] * len(a)
        a.extend(a[:1])
    elif isinstance(a, dict):
        a.clear()


def run(plan, ctx):
    ms = plan['model']
    t = ms['t']
    D = gen.build_data(plan['data'][0])
    require(hyper_ok(ms, D.d), 'optimizer needs more than one feature')
    m = gen.build_model(ms)
    r = ctx.do(lambda: fit(m, D))
    if r[0] == 'exc':
        raise Violation('fit-fails', 'training a brand-new {} on valid data raises {}'.format(t, type(r[1]).__name__))
    Qs = [gen.format_X(gen.query_matrix(D, q['seed'], q['n']), q['fmt'], q['seed']) for q in plan['qs']]

    def baseline():
        # every question asked once of a copy that nothing else has been asked of
        blob = pickle.dumps(m)
        want, pts = {}, {}
        for op in plan['ops']:
            key = (op['q'], op['x'])
            if key not in want:
                c = pickle.loads(blob)
                s = ctx.sim()
                r = s.run(lambda: obs.outcome(ask, c, op['q'], Qs[op['x']], D))
                if r[0] == 'exc':
                    raise r[1]
                want[key] = r[1]
                pts[key] = s.threads[0].points
        return want, pts, obs_all(pickle.loads(blob), t, Qs)
    want, pts, full = ctx.fork(baseline)
    if plan.get('reuse'):       # the caller uses the memory of its training data for something else
        reuse(D.Xin)
        reuse(D.yin)
        ctx.probe('reused-data')
    for op in plan['ops']:
        key = (op['q'], op['x'])
        answers = [] if op.get('scribble') else None
        r = ctx.do(lambda: obs.outcome(ask, m, op['q'], Qs[op['x']], D, answers), gen.resolve_fault(op['fault'], pts[key]))
        ctx.probe('q:' + op['q'])
        ctx.probe('rejected', op['q'] in ('wrongdim', 'garbage'))
        fired = op['fault'] is not None and ctx.last.fired
        ctx.probe('killed', bool(fired))
        ctx.note(key, r[0])
        if answers and op['q'] != 'get_params':
            reuse(answers[0])
            ctx.probe('reused-answer')
        if not fired and (r[0] == 'exc' or r[1] != want[key]):
            raise Violation('answer', '{} answers differently after earlier questions: {} instead of {}'.format(
                op['q'], _s(r), _s(('ok', want[key]))))
    got = obs_all(m, t, Qs)
    if got != full:
        raise Violation('answer', 'after {} questions {}'.format(len(plan['ops']), describe(full, got)))
    ctx.probe('split-trees', not m.is_leaf())
    ctx.probe('hyper', not gen.is_perp(t))
    ctx.probe('pruned', bool(ms['prune']))
    ctx.probe('sparse-query', any(q['fmt'] in gen.SPARSE for q in plan['qs']))


def _s(r):
    if r[0] == 'exc':
        return repr(type(r[1]).__name__)
    v = r[1]
    return v[1] if v[0] == 'exc' else obs._short(v[1])
