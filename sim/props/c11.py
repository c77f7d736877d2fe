"""C11  Training samples are conserved and routed to the leaf that learned from them."""
import numpy as np

from .common import *  # noqa: F401,F403
from . import history
from .. import refmodel as R

ID = 'C11'
RUNS = {'quick': 4200, 'thorough': 60000}
REAL = REAL_CORE
STUB = STUB_CORE + ['asynchronous exceptions', 'progress stream', 'failing optimizer evaluations']
ASSUMPTIONS = ASSUME_CORE + ['Training rows within 1e-12 (relative) of a hyperplane may fall on either side.']
RULE = ('A run takes an estimator of any type through a seeded history of operations and faults, completes one fit and '
        'accounts for every training sample: counts per level, posterior of every node, and the leaf reached by asking for '
        'the training rows again in several packagings.  Non-trivial: a completed fit was accounted for.')
PROBES = ['split-trees', 'depth>=3', 'hyper', 'perp', 'after-fault', 'sparse', 'int-data', 'adjacent', 'copy', 'dup-rows', 'rows>32767', 'classes>128', 'features>128', 'offset',
          'single-precision-targets', 'large-integers', 'missing', 'infinite', 'overflow']


def gen_plan(rng, tier):
    cls = rng.random() < 0.6
    k = gen.pick_k(rng, [2, 2, 3])
    d = gen.pick_d(rng, [1, 2, 2, 3, 4])
    x = gen.extreme(rng)
    if x:
        k, d = x['k'], x['d']
    ms = gen.model_spec(rng, types=('PC', 'HC') if cls else ('PR', 'HR'), k=k, d=d)
    if x:
        ms = gen.model_spec(rng, types=('PC',) if cls else ('PR',), k=k, d=d)
    ms['prune'] = rng.random() < 0.2
    perp = gen.is_perp(ms['t'])
    n_data = rng.choice([1, 2])
    big = perp and not x and rng.random() < 0.06
    kinds = gen.KINDS + (['adjacent', 'adjacent'] if perp else [])
    data = [gen.data_spec(rng, cls, d=d, k=k, kinds=x['kinds'] if x else kinds, n=x['n'] if x and i == 0 else rng.choice([150, 300, 520, 600]) if big and i == 0 else None)
            for i in range(n_data)]
    for s in data:
        if s['kind'] == 'adjacent' or s['fmt'] == 'f32' and not perp:
            s['fmt'] = rng.choice(['dense', 'csr', 'F'])
        if cls and rng.random() < 0.3:
            s['yfmt'] = rng.choice(['i8', 'u8', 'i16', 'i32'])
        if not cls and rng.random() < 0.3 and s['kind'] in gen.INT_KINDS:
            s['yq'], s['yscale'] = 0, 20.0
            s['rule'], s['noise'] = 'rand', 0.0
            s['yround'] = True
    if not cls:
        gen.targets(rng, ms, data)
    if perp and not x and rng.random() < 0.02:
        data[0]['kind'], data[0]['fmt'] = 'ids', rng.choice(['i64', 'u64'])
    if not x:
        gen.special(rng, ms, data[0])
    gen.tame(ms, data)
    return {'model': ms, 'data': data, 'ops': history.gen_history(rng, ms, n_data, 0 if x else rng.choice([0, 1, 1, 2, 4])),
            'q': rng.randrange(1 << 20)}


def run(plan, ctx):
    ms = plan['model']
    t = ms['t']
    cls, perp = gen.is_cls(t), gen.is_perp(t)
    Ds = [gen.build_data(s) for s in plan['data']]
    for D in Ds:
        require(hyper_ok(ms, D.d), 'optimizer needs more than one feature')
    Qs = [gen.query_matrix(D, plan['q'], 8) for D in Ds]
    m = gen.build_model(ms)
    for op in plan['ops']:
        m = history.apply(ctx, m, ms, op, Ds, Qs)
        ctx.probe('copy', op['op'] == 'copy')
    ms = history.final_params(ms, plan['ops'])
    D = Ds[0]
    r = ctx.do(lambda: fit(m, D))
    if r[0] == 'exc':
        raise Violation('fit-fails', 'training on valid data raises {}: {}'.format(type(r[1]).__name__, r[1]))
    tree = R.read_tree(m, perp)
    prior = R.root_prior(ms, D.n)
    R.check_posteriors(tree, cls, D.X, D.y, (prior, None), ms['delta'] if perp else 0)
    # querying the training rows reaches the leaf that counts them
    where, amb = R.leaf_of(tree, D.X)
    if tree.n != D.n:
        raise Violation('conservation', 'the root counts {} of {} samples'.format(tree.n, D.n))
    per_leaf = {}
    for i, lf in enumerate(where):
        per_leaf.setdefault(id(lf), []).append(i)
    if not amb.any():
        for lf in R.leaves(tree):
            got = len(per_leaf.get(id(lf), []))
            if got != lf.n:
                raise Violation('routing', 'a leaf counts {} samples but {} of the training rows reach it'.format(lf.n, got))
    rs = np.random.RandomState(plan['q'])
    order = rs.permutation(D.n)
    for X, idx in ((D.Xin, np.arange(D.n)), (gen.format_X(D.X[order], ['dense', 'csr', 'csc'][plan['q'] % 3]), order)):
        p = ctx.do(lambda: m.predict(X))
        q = ctx.do(lambda: m.predict_proba(X)) if cls else None
        if p[0] == 'exc':
            raise Violation('query-fails', 'predict on the training rows raises {}'.format(type(p[1]).__name__))
        if q is not None and q[0] == 'exc':
            raise Violation('query-fails', 'predict_proba on the training rows raises {}'.format(type(q[1]).__name__))
        for j, i in enumerate(idx):
            if amb[i]:
                continue
            lf = where[i]
            if float(p[1][j]) != R.leaf_prediction(cls, lf):
                raise Violation('routing', 'training row {} is predicted {} but the leaf that learned from it says {}'.format(
                    i, p[1][j], R.leaf_prediction(cls, lf)))
            if q is not None and not R.close(q[1][j], lf.post / lf.post.sum(), 1e-12):
                raise Violation('routing', 'training row {} gets probabilities of another leaf'.format(i))
    ctx.probe('split-trees', not tree.leaf)
    ctx.probe('depth>=3', R.depth_of(tree) >= 3)
    ctx.probe('perp' if perp else 'hyper')
    ctx.probe('after-fault', any(o['op'] in ('fault', 'optfail', 'kill', 'verbose') for o in plan['ops']))
    ctx.probe('sparse', D.spec['fmt'] in gen.SPARSE)
    ctx.probe('int-data', D.spec['fmt'] in gen.FMT_INT)
    ctx.probe('adjacent', D.spec['kind'] == 'adjacent')
    ctx.probe('rows>32767', D.n > 32767)
    ctx.probe('classes>128', cls and D.spec['k'] > 128)
    ctx.probe('features>128', D.d > 128)
    ctx.probe('missing', D.spec.get('post') in ('nan', 'mix') and not tree.leaf)
    ctx.probe('infinite', D.spec.get('post') in ('inf', 'mix') and not tree.leaf)
    ctx.probe('overflow', D.spec.get('post') == 'max' and not tree.leaf)
    ctx.probe('large-integers', D.spec['kind'] == 'ids')
    ctx.probe('offset', D.spec.get('yoff'))
    ctx.probe('single-precision-targets', D.spec['yfmt'] == 'f32')
    ctx.probe('dup-rows', len(np.unique(D.X, axis=0)) < D.n)
    ctx.note(str(m))
