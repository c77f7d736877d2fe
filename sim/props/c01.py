"""C01  Failed or interrupted training is all-or-nothing."""
from .common import *  # noqa: F401,F403
from ..simopt import FailingOptimizer

ID = 'C01'
RUNS = {'quick': 3000, 'thorough': 40000}
REAL = REAL_CORE
STUB = STUB_CORE + ['progress stream', 'asynchronous exceptions', 'failing optimizer evaluations']
ASSUMPTIONS = ASSUME_CORE
RULE = ('A run trains a seeded estimator zero or more times and then lets fit() calls on other data fail at a seeded instant '
        '(interrupt, out of memory, exit, arbitrary error at a bytecode; an optimizer evaluation that raises; a progress '
        'stream that fails), observing the estimator after every attempt.  Non-trivial: the fault fired inside fit().')
PROBES = ['interrupt', 'memory', 'error', 'exit', 'evaluation', 'stream', 'state:old', 'state:untrained',
          'pruning-model', 'refit']


def gen_fault(rng, hyper):
    r = rng.random()
    if hyper and r < 0.2:
        return {'type': 'evaluation', 'k': rng.choice([1, 2, 3, 5, 8, 13, 21]), 'after': rng.random() < 0.5}
    if r < 0.35:
        return {'type': 'stream', 'k': rng.choice([1, 2, 3, 4, 5, 7, 9]), 'err': rng.choice(STREAM_ERRS)}
    return {'type': 'async', 'at': gen.fault_spec(rng, burst=True), 'verbose': rng.random() < 0.2}


def gen_plan(rng, tier):
    cls = rng.random() < 0.6
    k = gen.pick_k(rng, [2, 2, 3])
    d = gen.pick_d(rng, [1, 2, 2, 3])
    ms = gen.model_spec(rng, types=('PC', 'PC', 'HC') if cls else ('PR', 'PR', 'HR'), k=k, d=d)
    n_data = rng.choice([2, 2, 3])
    same_d = not gen.is_perp(ms['t']) and d == 1 or rng.random() < 0.6
    data = [gen.data_spec(rng, cls, d=d if same_d else rng.choice([2, 3]), k=k) for _ in range(n_data)]
    few = not gen.is_perp(ms['t']) and rng.random() < 0.4
    if few:     # few evaluations, so that every one matters
        ms['opt'] = simopt.sim_opt_spec(rng, d)
        ms['opt']['n'] = rng.choice([2, 3, 5])
    ops = []
    if rng.random() < 0.7:
        ops.append({'data': 0, 'fault': None})
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops.append({'data': rng.randrange(n_data), 'fault': gen_fault(rng, not gen.is_perp(ms['t']))})
        f = ops[-1]['fault']
        if few and f['type'] == 'async' and rng.random() < 0.5:
            f['at'][0] = 'memory'
        if rng.random() < 0.2:
            ops.append({'data': rng.randrange(n_data), 'fault': None})
    gen.tame(ms, data)
    return {'model': ms, 'data': data, 'ops': ops, 'q': rng.randrange(1 << 20)}


def run(plan, ctx):
    ms = plan['model']
    t = ms['t']
    Ds = [gen.build_data(s) for s in plan['data']]
    for D in Ds:
        require(hyper_ok(ms, D.d), 'optimizer needs more than one feature')
    Qs = [gen.query_matrix(D, plan['q'], 16) for D in Ds]
    new = {}
    for j in sorted({op['data'] for op in plan['ops']}):
        new[j] = expect_fits(ctx, ms, Ds[j], Qs)
    m = gen.build_model(ms)
    inner = getattr(m, 'optimizer', None)
    cur = obs_all(m, t, Qs)         # the state before the first fit: untrained
    if not all(obs.is_untrained(o) for o in cur):
        raise Violation('fresh', 'a new estimator does not report itself untrained')
    for op in plan['ops']:
        D, f = Ds[op['data']], op['fault']
        want, steps, points = new[op['data']]
        if f is None:
            r = ctx.do(lambda: fit(m, D))
        elif f['type'] == 'evaluation':
            require(not gen.is_perp(t), 'no optimizer')
            m.optimizer = fo = FailingOptimizer(inner, f['k'], f['after'])
            r = ctx.do(lambda: fit(m, D))
            ctx.fault('evaluation', fo.fired)
            m.optimizer = inner
        elif f['type'] == 'stream':
            with stdout(Stream(f['k'], f['err'])) as st:
                r = ctx.do(lambda: fit(m, D, verbose=True))
            ctx.fault('stream', st.fired)
        else:
            with stdout(Stream()):
                r = ctx.do(lambda: fit(m, D, verbose=bool(f.get('verbose'))), gen.resolve_fault(f['at'], points))
        got = obs_all(m, t, Qs)
        is_old, is_new = got == cur, got == want
        is_un = all(obs.is_untrained(o) for o in got)
        ctx.note(r[0], is_old, is_new, is_un)
        if r[0] == 'ok':
            if not is_new:
                raise Violation('incomplete', 'fit() returned but ' + describe(want, got))
        else:
            ctx.probe('pruning-model', ms['prune'])
            ctx.probe('refit', not all(obs.is_untrained(o) for o in cur))
            ctx.probe('state:' + ('old' if is_old and not is_un else 'new' if is_new else 'untrained' if is_un else 'bad'))
            if not (is_old or is_new or is_un):
                raise Violation('mixture', 'after fit() failed with {} at {}: {}; compared with the old state: {}'.format(
                    type(r[1]).__name__, ctx.where[-1:] or '?', describe(want, got), describe(cur, got)))
        cur = got


