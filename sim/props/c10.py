"""C10  Every decision of an axis-aligned tree is the Bayesian optimum; pruning is the collapse fixpoint."""
from .common import *  # noqa: F401,F403
from . import history
from .. import refmodel as R

ID = 'C10'
RUNS = {'quick': 5500, 'thorough': 60000}
REAL = REAL_CORE
STUB = STUB_CORE + ['asynchronous exceptions', 'progress stream']
ASSUMPTIONS = ASSUME_CORE + ['Decisions within 1e-8 relative log-likelihood of each other are ties; either is accepted.']
RULE = ('A run takes an estimator through a seeded history of fits, failing, rejected and interrupted operations, then '
        'completes one fit and checks every node against an independent evidence model; pruned models against the collapse '
        'fixpoint of the unpruned tree.  Non-trivial: the final tree was checked node by node.')
PROBES = ['nodes', 'splits', 'depth>=3', 'pruned', 'pruned-hyper', 'merged', 'delta', 'classes>2', 'regression', 'sparse',
          'after-fault', 'adjacent', 'big', 'rows>32767', 'classes>128', 'features>128',
          'missing', 'infinite', 'overflow', 'depth>=10', 'offset', 'single-precision-targets']


def gen_plan(rng, tier):
    cls = rng.random() < 0.55
    k = gen.pick_k(rng, [2, 2, 3, 4])
    r = rng.random()
    types = (('PC',) if cls else ('PR',)) if r < 0.85 else (('HC',) if cls else ('HR',))
    d = gen.pick_d(rng, [1, 2, 2, 3, 5])
    x = gen.extreme(rng)
    if x:
        k, d, types = x['k'], x['d'], ('PC',) if cls else ('PR',)
    if types[0][0] == 'H':
        d = max(d, 2)
    ms = gen.model_spec(rng, types=types, k=k, d=d)
    if types[0][0] == 'H':
        ms['prune'] = True
    kinds = gen.KINDS + ['adjacent'] if gen.is_perp(ms['t']) else ['normal', 'clusters', 'scaled']
    if x:
        kinds = x['kinds']
    big = x or rng.random() < 0.04
    n_data = rng.choice([1, 2])
    data = [gen.data_spec(rng, cls, d=d, k=k, kinds=kinds, n=x['n'] if x and j == 0 else rng.choice([150, 300, 600]) if big and j == 0 else None)
            for j in range(n_data)]
    for s in data:
        if s['n'] < k:
            s['n'] = 5 + k
        if s['fmt'] == 'f32' and not cls or s['kind'] == 'adjacent':
            s['fmt'] = 'dense'
        if rng.random() < 0.1 and not cls:
            s['yfmt'] = 'array'
            s['yconst'] = rng.random() < 0.2
        if cls and rng.random() < 0.2:
            s['yfmt'] = rng.choice(['i8', 'u8', 'i16', 'i32'])
    if not x:
        gen.special(rng, ms, data[0])
    ops = history.gen_history(rng, ms, n_data, rng.choice([0, 0, 1, 2, 4]) if not big else 0)
    if not cls:
        gen.targets(rng, ms, data)
    gen.tame(ms, data)
    return {'model': ms, 'data': data, 'ops': ops, 'q': rng.randrange(1 << 20)}


def run(plan, ctx):
    ms = plan['model']
    t = ms['t']
    cls, perp = gen.is_cls(t), gen.is_perp(t)
    Ds = [gen.build_data(s) for s in plan['data']]
    for D in Ds:
        require(hyper_ok(ms, D.d), 'optimizer needs more than one feature')
    Qs = [gen.query_matrix(D, plan['q'], 8) for D in Ds]
    m = gen.build_model(ms)
    for op in plan['ops']:
        m = history.apply(ctx, m, ms, op, Ds, Qs)
    ms = history.final_params(ms, plan['ops'])
    D = Ds[0]
    r = ctx.do(lambda: fit(m, D))
    if r[0] == 'exc':
        raise Violation('fit-fails', 'training on valid data raises {}: {}'.format(type(r[1]).__name__, r[1]))
    tree = R.read_tree(m, perp)
    full = tree
    if ms['prune']:
        ms2 = dict(ms, prune=False)
        m2 = gen.build_model(ms2)
        r = ctx.do(lambda: fit(m2, D))
        full = R.read_tree(m2, perp)
        want = R.prune_fixpoint(cls, full)
        why = R.same_tree(want, tree)
        ctx.probe('pruned')
        ctx.probe('pruned-hyper', not perp)
        ctx.probe('merged', R.n_leaves(want) < R.n_leaves(full))
        if why:
            raise Violation('prune', 'the pruned tree is not the collapse fixpoint of the unpruned one: ' + why)
    stats = {}
    prior = R.root_prior(ms, D.n)
    if perp:
        R.check_perp_optimal(full, cls, D.X, D.y, prior, ms['delta'], ms['pp'], ms['sp'], 0, stats, D.spec['fmt'] == 'f32')
    for k, v in stats.items():
        ctx.probe(k, v)
    dep = R.depth_of(full)
    ctx.probe('depth>=3', dep >= 3)
    ctx.probe('depth>=10', dep >= 10)
    ctx.probe('missing', D.spec.get('post') in ('nan', 'mix') and not full.leaf)
    ctx.probe('infinite', D.spec.get('post') in ('inf', 'mix') and not full.leaf)
    ctx.probe('overflow', D.spec.get('post') == 'max' and not full.leaf)
    ctx.probe('delta', bool(ms['delta']))
    ctx.probe('classes>2', cls and len(prior) > 2)
    ctx.probe('regression', not cls)
    ctx.probe('sparse', D.spec['fmt'] in gen.SPARSE)
    ctx.probe('after-fault', any(o['op'] in ('fault', 'optfail', 'kill') for o in plan['ops']))
    ctx.probe('adjacent', D.spec['kind'] == 'adjacent')
    ctx.probe('big', D.n >= 100)
    ctx.probe('offset', D.spec.get('yoff'))
    ctx.probe('single-precision-targets', D.spec['yfmt'] == 'f32')
    ctx.probe('rows>32767', D.n > 32767)
    ctx.probe('classes>128', cls and D.spec['k'] > 128)
    ctx.probe('features>128', D.d > 128)
    ctx.note(str(m))
