"""C06  Data and parameters handed in by the caller are never modified."""
import numpy as np
import pandas as pd

from .common import *  # noqa: F401,F403
from .. import simopt as so

ID = 'C06'
RUNS = {'quick': 2000, 'thorough': 12000}
REAL = REAL_CORE
STUB = STUB_CORE + ['asynchronous exceptions', 'progress stream', 'failing optimizer evaluations']
ASSUMPTIONS = ASSUME_CORE + ['Objects are compared byte by byte (shape, strides, flags, index) every 1 to 7 library steps.']
RULE = ('A run carries out a seeded sequence of fits and queries, some failing or interrupted, some concurrent, and compares '
        'every object the caller owns with a snapshot at library steps and at the end; read-only objects must be accepted and '
        'give the same answers as writable ones.  Non-trivial: at least one operation on a watched object.')
PROBES = ['dense', 'F', 'stride', 'ro', 'df', 'list', 'csr', 'csc', 'csr_ro', 'csc_ro', 'csc_unsorted', 'csc_dup', 'be', 'ld', 'tuples', 'csr_i32', 'csc_i64', 'dfmix', 'bool', 'csr_bool', 'csc_bool', 'interrupt', 'memory', 'error', 'stream',
          'rejected', 'killed-query', 'hyper', 'pruned', 'proposals', 'names', 'threads', 'readonly-same', 'y:ro', 'y:list',
          'y:col', 'y:series', 'y:frame', 'y:be', 'y:obj', 'y:tuple', 'y:nullable', 'columns', 'delta']

FMTS = ['dense', 'dense', 'F', 'stride', 'neg', 'ro', 'df', 'df', 'df', 'list', 'csr', 'csc', 'csr_ro', 'csr_unsorted', 'csc_ro', 'csc_unsorted',
        'csc_unsorted_ro', 'csc_dup', 'csr_dup', 'f32', 'obj', 'be', 'ld', 'tuples', 'i64', 'i8', 'csr_i32',
        'csc_i64', 'dfmix', 'bool', 'csr_bool', 'csc_bool']


def gen_plan(rng, tier):
    cls = rng.random() < 0.6
    k = gen.pick_k(rng, [2, 2, 3])
    d = gen.pick_d(rng, [1, 2, 2, 3])
    ms = gen.model_spec(rng, types=('PC', 'HC', 'HC') if cls else ('PR', 'HR', 'HR'), k=k, d=d)
    ms['pk'] = rng.choice(['array', 'array', 'list', 'ro', 'int'])
    s = gen.data_spec(rng, cls, d=d, k=k, n=gen.wide_n(rng, rng.choice([4, 6, 8, 12, 16]), 0.03))
    s['fmt'] = rng.choice(FMTS)
    if s['fmt'].endswith('bool'):
        s['kind'] = 'binary'
    elif s['fmt'] in gen.FMT_INT:
        s['kind'] = 'grid'
    if s['fmt'] == 'df':
        s['cols'] = rng.choice(gen.COLUMNS)
    s['yfmt'] = rng.choice(['array', 'list', 'float', 'ro', 'col', 'series', 'frame', 'be', 'obj', 'tuple', 'nullable'] + (['i8', 'i32'] if cls else []))
    if not gen.is_perp(ms['t']) and rng.random() < 0.5:
        ms['opt'] = so.sim_opt_spec(rng, d)
        ms['opt']['n'] = min(ms['opt']['n'], 8)
        ms['opt']['pin'] = rng.choice(['rw', 'ro'])
        ms['opt']['int'] = rng.random() < 0.2
    gen.tame(ms, [s])
    costly = not gen.is_perp(ms['t']) and ms['opt']['o'] in ('DE', 'SA', 'GD')
    if costly:
        s['n'] = min(s['n'], max(8, k))
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        o = rng.choice(['fit', 'fit', 'query', 'query', 'reject', 'threads'])
        op = {'op': o, 'fault': gen.fault_spec(rng) if rng.random() < 0.4 else None,
              'qs': [{'q': rng.choice(obs.query_names(ms['t'])), 'x': rng.randrange(2)} for _ in range(rng.choice([1, 2]))]}
        if o == 'fit':
            op['verbose'] = rng.choice([0, 0, 1, 2, 3])
            op['names'] = rng.choice([None, None, 'list', 'array'])
        if o == 'reject':
            op['how'] = rng.choice(['short', 'labels', 'cols', 'nonnum'])
        if o == 'threads':
            op['sched'] = gen.sched_spec(rng, 500)
        ops.append(op)
    return {'model': ms, 'data': [s], 'ops': ops, 'q': rng.randrange(1 << 20),
            'qf': [rng.choice(FMTS[:24]), rng.choice(FMTS[:24])], 'qcols': rng.choice(gen.COLUMNS), 'every': rng.choice([17, 31, 53] if costly else [1, 2, 3, 5, 7])}


class Pinned(so.SimOptimizer):
    """Keeps every vector it has proposed, so that their owner can tell whether they were changed."""
    def __init__(self, spec):
        super().__init__(spec)
        self.kept = []

    def solve(self, f):
        for v in self.proposals(f.X.shape[1]):
            if self.spec.get('int') and not self.spec.get('cube') and np.all(np.isfinite(v)):
                v = np.round(v).astype(int)
            if self.spec['pin'] == 'ro':
                v.setflags(write=False)
            self.kept.append((v, v.tobytes()))
            f.compute(v)

    def changed(self):
        for v, b in self.kept[-3:]:
            if v.tobytes() != b:
                return 'a vector proposed to compute() was modified'
        return None


def run(plan, ctx):
    ms = plan['model']
    t = ms['t']
    cls, perp = gen.is_cls(t), gen.is_perp(t)
    D = gen.build_data(plan['data'][0])
    require(hyper_ok(ms, D.d), 'optimizer needs more than one feature')
    Q0 = gen.query_matrix(D, plan['q'], 8)
    Qs = [gen.format_X(Q0, f, plan['q']) for f in plan['qf']]
    for Q in Qs:
        if isinstance(Q, pd.DataFrame) and plan.get('qcols'):
            Q.columns = gen.columns(plan['qcols'], D.d)
    prior = gen.build_prior(ms)
    pinned = None
    opt = None
    if not perp:
        pinned = Pinned(ms['opt']) if ms['opt']['o'] == 'SIM' and 'pin' in ms['opt'] else None
        opt = pinned or gen.build_opt(ms['opt'])
    m = gen.build_model(ms, opt=opt, prior=prior)
    names_l = ['n{}'.format(i) for i in range(D.d)]
    names = {'list': names_l, 'array': np.array(names_l, dtype=object), None: None}
    bad = {'short': (D.Xin, gen.format_y(D.y[:-1], 'array')), 'labels': (D.Xin, gen.format_y(D.y + 7, 'array')),
           'cols': (gen.format_X(np.hstack([D.X, D.X]), 'F'), None), 'nonnum': (np.array([['a'] * D.d] * D.n, dtype=object), D.yin)}
    w = obs.Watch().add('X', D.Xin).add('y', D.yin).add('prior', prior)
    for i, Q in enumerate(Qs):
        w.add('query matrix {}'.format(i), Q)
    w.add('feature name list', names_l).add('feature name array', names['array'])
    for b in bad.values():
        for x in b:
            if x is not None and x is not D.Xin and x is not D.yin:
                w.add('rejected input', x)
    if opt is not None and pinned is None:
        w.add('optimizer', opt)

    def watch():
        return (pinned.changed() if pinned is not None else None) or w()
    kw = dict(watch=watch, watch_every=plan['every'])

    def points(fn):
        def body():
            s = ctx.sim()
            s.run(fn)
            return s.threads[0].points
        return ctx.fork(body)

    def go(fn, f):
        fl = gen.resolve_fault(f, points(fn)) if f else None
        r = ctx.do(fn, fl, **kw)
        msg = watch()
        if msg:
            raise Violation('modified', msg + ' (seen after the operation)')
        return r, ctx.last.threads[0].fired_at is not None

    def training(op=None):
        if op is None:
            return fit(m, D)
        nm = names[op.get('names')]
        return fit(m, D, verbose=bool(op.get('verbose')), names=nm)

    with stdout(Stream()):
        r, _ = go(training, None)
    if r[0] == 'exc':
        raise Violation('fit-fails', 'training on {} data with {} targets raises {}: {}'.format(
            D.spec['fmt'], D.spec['yfmt'], type(r[1]).__name__, r[1]))
    for op in plan['ops']:
        if op['op'] == 'fit':
            with stdout(Stream(op['verbose'] - 1 or None if op['verbose'] else None)) as st:
                r, fired = go(lambda: training(op), op['fault'])
            ctx.fault('stream', st.fired)
            ctx.probe('names', op['names'] is not None)
            if r[0] == 'exc' and not fired and not st.fired:
                raise Violation('fit-fails', 'training raises {}: {}'.format(type(r[1]).__name__, r[1]))
        elif op['op'] == 'query':
            for q in op['qs']:
                r, fired = go(lambda: obs.call(m, q['q'], Qs[q['x']]), op['fault'])
                ctx.probe('killed-query', fired)
                if r[0] == 'exc' and not fired:
                    raise Violation('query-fails', '{} on {} raises {}: {}'.format(
                        q['q'], plan['qf'][q['x']], type(r[1]).__name__, r[1]))
        elif op['op'] == 'reject':
            X, y = bad[op['how']]
            r, fired = go(lambda: m.fit(X, y) if y is not None else m.predict(X), op['fault'])
            ctx.probe('rejected', r[0] == 'exc')
        else:
            m2 = gen.build_model(ms, opt=opt, prior=prior)
            fns = [lambda: fit(m2, D)] + [lambda q=q: obs.call(m, q['q'], Qs[q['x']]) for q in op['qs']]
            ctx.threads_run(fns, None, sched=op['sched'], **kw)
            msg = watch()
            if msg:
                raise Violation('modified', msg + ' (seen after concurrent operations)')
            ctx.probe('threads')
    # read-only objects give the same model as writable ones
    if D.spec['fmt'] == 'ro' or D.spec['fmt'].endswith('_ro') or D.spec['yfmt'] == 'ro' or ms['pk'] == 'ro':
        s2 = dict(D.spec, fmt='dense' if D.spec['fmt'] == 'ro' else D.spec['fmt'].replace('_ro', ''),
                  yfmt='array' if D.spec['yfmt'] == 'ro' else D.spec['yfmt'])
        ms2 = dict(ms, pk='array' if ms['pk'] == 'ro' else ms['pk'])
        D2 = gen.build_data(s2)
        a, b = gen.build_model(ms, opt=opt), gen.build_model(ms2, opt=opt)
        ra, rb = ctx.do(lambda: fit(a, D)), ctx.do(lambda: fit(b, D2))
        if ra[0] != rb[0] or ra[0] == 'ok' and obs_all(a, t, Qs) != obs_all(b, t, Qs):
            raise Violation('read-only', 'read-only inputs give another result than writable ones: {} / {}'.format(
                ra[0], rb[0]))
        ctx.probe('readonly-same')
    ctx.probe(D.spec['fmt'])
    ctx.probe('y:' + D.spec['yfmt'])
    ctx.probe('columns', D.spec['fmt'] == 'df' and bool(D.spec.get('cols')))
    ctx.probe('hyper', not perp)
    ctx.probe('pruned', ms['prune'])
    ctx.probe('delta', bool(ms['delta']))
    ctx.probe('proposals', pinned is not None and len(pinned.kept) > 0)
    ctx.note(str(m))
