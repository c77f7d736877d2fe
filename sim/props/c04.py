"""C04  Concurrent queries on a shared trained model answer as if asked alone."""
import pickle

from .common import *  # noqa: F401,F403

ID = 'C04'
RUNS = {'quick': 4500, 'thorough': 60000}
REAL = REAL_CORE
STUB = STUB_CORE + ['asynchronous exceptions']
ASSUMPTIONS = ASSUME_CORE
RULE = ('A run trains a model and lets 2-4 simulated caller threads ask it seeded questions of different sizes and formats '
        'under a seeded interleaving of bytecodes; some threads are killed half way.  Every completed answer must equal the '
        'answer given alone in another process.  Non-trivial: at least one preemptive switch inside the library.')
PROBES = ['split-trees', 'switched', 'interrupt', 'memory', 'error', 'killed', 'hyper', 'mixed-sizes', 'sparse-query',
          'q:prediction_paths', 'q:feature_importance', 'q:str', 'threads>=3']


def gen_plan(rng, tier):
    cls = rng.random() < 0.6
    k = gen.pick_k(rng, [2, 2, 3])
    d = gen.pick_d(rng, [1, 2, 2, 3])
    ms = gen.model_spec(rng, types=('PC', 'HC') if cls else ('PR', 'HR'), k=k, d=d)
    data = [gen.data_spec(rng, cls, d=d, k=k)]
    gen.tame(ms, data)
    n_q = rng.choice([1, 2, 3])
    qs = [{'seed': rng.randrange(1 << 20), 'n': rng.choice([4, 8, 24, 24, 140, 270]),
           'fmt': rng.choice(['dense', 'F', 'csr', 'csc', 'csc_unsorted', 'df', 'list', 'ro', 'f32', 'csr_unsorted'])} for _ in range(n_q)]
    if rng.random() < 0.3:      # requests alike in everything but their values
        n, fmt = rng.choice([4, 8, 24]), rng.choice(['csr', 'csc', 'csc_unsorted', 'dense', 'df'])
        qs = [dict(q, n=n, fmt=fmt) for q in (qs * 3)[:3]]
        for i, q in enumerate(qs):
            q['seed'] += i
        n_q = 3
    names = obs.query_names(ms['t'])
    names = names + [n for n in names if n in ('predict', 'predict_proba', 'prediction_paths')] * 2
    threads = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        ops = [{'q': rng.choice(names), 'x': rng.randrange(n_q)} for _ in range(rng.choice([1, 1, 2, 3]))]
        threads.append({'ops': ops, 'fault': gen.fault_spec(rng) if rng.random() < 0.25 else None})
    return {'model': ms, 'data': data, 'qs': qs, 'threads': threads, 'sched': gen.sched_spec(rng, rng.choice([200, 800, 3000]))}


def run(plan, ctx):
    ms = plan['model']
    t = ms['t']
    D = gen.build_data(plan['data'][0])
    require(hyper_ok(ms, D.d), 'optimizer needs more than one feature')
    require(len(plan['threads']) > 0, 'no threads')
    m = gen.build_model(ms)
    r = ctx.do(lambda: fit(m, D))
    if r[0] == 'exc':
        raise Violation('fit-fails', 'training a brand-new {} on valid data raises {}'.format(t, type(r[1]).__name__))
    Qs = [gen.format_X(gen.query_matrix(D, q['seed'], q['n']), q['fmt'], q['seed']) for q in plan['qs']]

    def ask(mm, ops, out):
        for op in ops:
            out.append(obs.outcome(obs.call, mm, op['q'], Qs[op['x']]))

    def baseline():
        blob = pickle.dumps(m)
        want, pts = [], []
        for th in plan['threads']:
            out = []
            for op in th['ops']:
                out.append(obs.outcome(obs.call, pickle.loads(blob), op['q'], Qs[op['x']]))
            want.append(out)
            s = ctx.sim()
            c = pickle.loads(blob)
            s.run(lambda: ask(c, th['ops'], []))
            pts.append(s.threads[0].points)
        return want, pts, obs_all(pickle.loads(blob), t, Qs)
    want, pts, full = ctx.fork(baseline)
    outs = [[] for _ in plan['threads']]
    fns = [lambda ops=th['ops'], o=o: ask(m, ops, o) for th, o in zip(plan['threads'], outs)]
    faults = [gen.resolve_fault(th['fault'], p) for th, p in zip(plan['threads'], pts)]
    rs = ctx.threads_run(fns, faults, sched=plan['sched'])
    for i, (th, out, w, r) in enumerate(zip(plan['threads'], outs, want, rs)):
        fired = ctx.last.threads[i].fired_at is not None
        if r[0] == 'exc' and not fired:
            raise Violation('crash', 'thread {} failed with {}'.format(i, type(r[1]).__name__))
        for j, (a, b) in enumerate(zip(out, w)):
            if a != b and not (fired and a == ('exc', type_of(th['fault']))):
                raise Violation('answer', 'thread {} asking {} concurrently gets {} instead of {}'.format(
                    i, th['ops'][j]['q'], _s(a), _s(b)))
        for op in th['ops']:
            ctx.probe('q:' + op['q'])
        ctx.probe('killed', fired)
    got = obs_all(m, t, Qs)
    if got != full:
        raise Violation('answer', 'after concurrent queries ' + describe(full, got))
    ctx.probe('split-trees', not m.is_leaf())
    ctx.probe('switched', ctx.last.n_switches)
    ctx.probe('hyper', not gen.is_perp(t))
    ctx.probe('threads>=3', len(plan['threads']) >= 3)
    ctx.probe('mixed-sizes', len({q['n'] for q in plan['qs']}) > 1)
    ctx.probe('sparse-query', any(q['fmt'].startswith('cs') for q in plan['qs']))


def type_of(fault):
    from ..core import FAULTS
    return FAULTS[fault[0]].__name__


def _s(v):
    return v[1] if v[0] == 'exc' else obs._short(v[1])
