"""C02  Training is independent of the history of the estimator and its collaborators."""
import copy

import numpy as np

from .common import *  # noqa: F401,F403
from . import history

ID = 'C02'
BATCH = 1       # every run starts from a process that has never trained anything
RUNS = {'quick': 2200, 'thorough': 45000}
REAL = REAL_CORE
STUB = STUB_CORE + ['asynchronous exceptions', 'progress stream', 'failing optimizer evaluations']
ASSUMPTIONS = ASSUME_CORE
RULE = ('A run takes an estimator, a neighbour that shares its optimizer, prior and data objects, and a few data sets of '
        'different shapes and classes through a seeded history (completed, rejected, failing and interrupted fits, queries, '
        'parameter changes, copies, data edited in place by the caller), then completes one fit, and compares every answer '
        'with a new estimator trained once in a process without that history.  Non-trivial: the history is not empty.')
PROBES = ['history>0', 'neighbour', 'edited-data', 'other-classes', 'other-shape', 'op:fault', 'op:reject', 'op:kill',
          'op:copy', 'op:params', 'op:optfail', 'verbose-final', 'hyper', 'sparse', 'same-object-refit']


def gen_plan(rng, tier):
    cls = rng.random() < 0.6
    k = gen.pick_k(rng, [2, 2, 3])
    d = gen.pick_d(rng, [1, 2, 2, 3])
    ms = gen.model_spec(rng, types=('PC', 'PC', 'HC') if cls else ('PR', 'HR'), k=k, d=d)
    perp = gen.is_perp(ms['t'])
    n_data = rng.choice([1, 2, 2, 3])
    data, priors = [], []
    for j in range(n_data):
        kj = k if j == 0 or rng.random() < 0.5 else rng.choice([2, 3, 4])
        dj = d if j == 0 or rng.random() < 0.5 else rng.choice([1, 2, 3, 4])
        if not perp:
            dj = d if d == 1 else max(2, dj)
        same = rng.random() < 0.3
        s = gen.data_spec(rng, cls, d=dj, k=kj, n=data[0]['n'] if same and data else None)
        data.append(s)
        priors.append(gen.prior_spec(rng, ms['t'], kj) if cls and kj != k else None)
    gen.tame(ms, data)
    for s in data:
        if cls and s['n'] < s['k']:
            s['n'] = 5 + s['k']
    ops = []
    for op in history.gen_history(rng, ms, n_data, rng.choice([1, 1, 2, 3, 5])):
        op['who'] = rng.choice(['self', 'self', 'self', 'neighbour'])
        if op['op'] == 'params' and op['who'] != 'self':
            op['op'], op['q'] = 'query', 'predict'
        ops.append(op)
    edit = rng.random() < 0.3
    if edit:
        data[0]['fmt'] = rng.choice(['dense', 'F', 'csr', 'csc', 'csc_unsorted'])
        data[0]['yfmt'] = 'array'
        data[0]['kind'] = 'normal'      # same sparsity pattern before and after the edit
    return {'model': ms, 'data': data, 'priors': priors, 'ops': ops, 'q': rng.randrange(1 << 20), 'edit': edit,
            'verbose': rng.random() < 0.2, 'extra': rng.random() < 0.3}


def edited(D, seed):
    """What the caller overwrites its own data with: other values, same shapes and classes."""
    rs = np.random.RandomState(seed)
    p = rs.permutation(D.n)
    return D.X[p][:, rs.permutation(D.d)] * 1.5 + 0.25, D.y[rs.permutation(D.n)]


def apply_edit(D, seed):
    X, y = edited(D, seed)
    if isinstance(D.Xin, np.ndarray):
        D.Xin[...] = X
    else:
        D.Xin.data[...] = gen.format_X(X, D.spec['fmt'], D.spec['seed']).data
    D.yin[...] = y
    D.X, D.y = X, y


def run(plan, ctx):
    ms0 = plan['model']
    t = ms0['t']
    cls = gen.is_cls(t)
    Ds = [gen.build_data(s) for s in plan['data']]
    for D in Ds:
        require(hyper_ok(ms0, D.d), 'optimizer needs more than one feature')
    Qs = [gen.query_matrix(D, plan['q'], 16) for D in Ds]
    ms = history.final_params(ms0, [o for o in plan['ops'] if o['who'] == 'self'])

    def baseline():
        # a new estimator, trained once on the data as it will be at the time of the last fit
        D = gen.build_data(plan['data'][0])
        if plan['edit']:
            apply_edit(D, plan['q'])
        m = gen.build_model(ms)
        r = ctx.do(lambda: fit(m, D))
        if r[0] == 'exc':
            return None, '{}: {}'.format(type(r[1]).__name__, r[1])
        return obs_all(m, t, Qs), None
    want, err = ctx.fork(baseline)
    if want is None:
        raise Violation('fit-fails', 'training a brand-new {} on valid data raises {}'.format(t, err))

    opt = None if gen.is_perp(t) else gen.build_opt(ms0['opt'])
    prior = gen.build_prior(ms0)
    m = gen.build_model(ms0, opt=opt, prior=prior)
    nb = gen.build_model(ms0, opt=opt, prior=prior)
    for op in plan['ops']:
        who = nb if op['who'] == 'neighbour' else m
        if cls and op['op'] not in ('query', 'kill', 'copy', 'params'):
            pj = plan['priors'][op['data']]
            who.set_params(prior=prior if pj is None else np.array(pj, dtype=float))
        new = history.apply(ctx, who, ms0, op, Ds, Qs)
        if op['who'] == 'self':
            m = new
            ctx.probe('other-classes', cls and plan['priors'][op['data']] is not None)
            ctx.probe('other-shape', Ds[op['data']].d != Ds[0].d)
            ctx.probe('same-object-refit', op['op'] == 'fit' and op['data'] == 0)
        else:
            nb = new
            ctx.probe('neighbour')
    D = Ds[0]
    if plan['edit']:
        apply_edit(D, plan['q'])
        ctx.probe('edited-data')
    if cls:
        m.set_params(prior=prior)
    with stdout(Stream()):
        r = ctx.do(lambda: fit(m, D, verbose=bool(plan['verbose'])))
    if r[0] == 'exc':
        raise Violation('fit-fails', 'training after a history raises {}: {}'.format(type(r[1]).__name__, r[1]))
    got = obs_all(m, t, Qs)
    if got != want:
        raise Violation('history', 'after {} operations: {}'.format(len(plan['ops']), describe(want, got)))
    if plan['extra']:
        # training once more, or a copy, or the neighbour, changes nothing either
        for c in (m, copy.deepcopy(m), nb):
            if c is nb:
                c.set_params(**{k: v for k, v in m.get_params(deep=False).items()})
            r = ctx.do(lambda: fit(c, D))
            got = obs_all(c, t, Qs)
            if r[0] == 'exc' or got != want:
                raise Violation('history', 'after {} operations and another fit: {}'.format(
                    len(plan['ops']), describe(want, got)))
    ctx.probe('history>0', len(plan['ops']) > 0)
    ctx.probe('verbose-final', bool(plan['verbose']))
    ctx.probe('hyper', not gen.is_perp(t))
    ctx.probe('sparse', D.spec['fmt'] in gen.SPARSE)
    ctx.note(str(m))
