"""C13  A model survives save, crash and restore unchanged."""
import copy
import hashlib
import io
import os
import pickle
import subprocess
import sys

import joblib

from .common import *  # noqa: F401,F403
from . import history

ID = 'C13'
BATCH = 1
RUNS = {'quick': 2500, 'thorough': 30000}
REAL = REAL_CORE + ['pickle', 'joblib', 'copy', 'fresh Python interpreters']
STUB = STUB_CORE + ['storage (bytes that survive the crash, possibly a truncated prefix)', 'process crash and restart',
                    'asynchronous exceptions', 'progress stream', 'failing optimizer evaluations']
ASSUMPTIONS = ASSUME_CORE + ['Storage returns a prefix of what was written; flipped bits inside it are outside of the property.']
RULE = ('A run takes an estimator through a seeded history of operations and faults in one process, saves it at seeded points '
        '(also while another thread is training it), ends that process, and restores every save in a process that has never '
        'seen the model, possibly from a truncated file: all answers, parameters and the outcome of further training must be '
        'those of the original.  Non-trivial: at least one save was restored.')
PROBES = ['pickle', 'joblib', 'deepcopy', 'copy', 'torn', 'torn-rejected', 'untrained', 'trained', 'after-fault', 'midfit',
          'retrained', 'hyper', 'pruned', 'interpreter', 'continued', 'no-optimizer', 'sparse']

HOWS = ['pickle2', 'pickle3', 'pickle4', 'pickle5', 'joblib', 'deepcopy', 'copy']


def gen_plan(rng, tier):
    cls = rng.random() < 0.6
    k = gen.pick_k(rng, [2, 2, 3])
    d = gen.pick_d(rng, [1, 2, 2, 3])
    ms = gen.model_spec(rng, types=('PC', 'HC') if cls else ('PR', 'HR'), k=k, d=d)
    n_data = rng.choice([1, 2])
    data = [gen.data_spec(rng, cls, d=d, k=k, n=gen.wide_n(rng, rng.choice([4, 8, 12, 20]), 0.03)) for _ in range(n_data)]
    for s in data:
        s['n'] = max(s['n'], k + 2)
    if not gen.is_perp(ms['t']) and d == 2 and rng.random() < 0.04:
        ms['opt'] = None
        for s in data:
            s['n'] = 5
    gen.tame(ms, data)
    ops = []
    if rng.random() < 0.85:
        ops.append({'op': 'fit', 'data': 0})
    ops += history.gen_history(rng, ms, n_data, rng.choice([0, 0, 1, 2, 3]))
    if ms.get('opt', 1) is None:
        ops = ops[:1]
    saves = []
    for _ in range(rng.choice([1, 1, 2])):
        s = {'after': rng.randrange(len(ops) + 1) if rng.random() < 0.4 else len(ops), 'how': rng.choice(HOWS),
             'torn': None, 'mid': None, 'train': rng.randrange(n_data) if rng.random() < 0.6 else None}
        if rng.random() < 0.25 and s['how'] not in ('deepcopy', 'copy'):
            s['torn'] = rng.choice([0.0, round(rng.random(), 3), 0.99, 0.999])
        elif rng.random() < 0.25:
            s['mid'] = {'data': rng.randrange(n_data), 'sched': gen.sched_spec(rng, 6000)}
            s['mid']['sched']['fin'] = [0]
        saves.append(s)
    return {'model': ms, 'data': data, 'ops': ops, 'saves': saves, 'q': rng.randrange(1 << 20),
            'fresh': rng.random() < (0.012 if tier == 'quick' else 0.008), 'hash': rng.randrange(1, 1 << 31)}


def dump(m, how):
    if how.startswith('pickle'):
        return pickle.dumps(m, protocol=int(how[6:]))
    if how == 'joblib':
        b = io.BytesIO()
        joblib.dump(m, b)
        return b.getvalue()
    return pickle.dumps(copy.deepcopy(m) if how == 'deepcopy' else copy.copy(m))


def load(b, how):
    if how == 'joblib':
        return joblib.load(io.BytesIO(b))
    return pickle.loads(b)


def build(plan):
    Ds = [gen.build_data(s) for s in plan['data']]
    for D in Ds:
        require(hyper_ok(plan['model'], D.d), 'optimizer needs more than one feature')
    return Ds, [gen.query_matrix(D, plan['q'], 12) for D in Ds]


def write_process(plan, ctx):
    """The process that is going to crash.  Returns what survives, and what it knew when it saved."""
    ms = plan['model']
    t = ms['t']
    Ds, Qs = build(plan)
    m = gen.build_model(ms)
    out = []

    def save_points(i):
        nonlocal m
        for s in plan['saves']:
            if min(s['after'], len(plan['ops'])) != i:
                continue
            before = obs_all(m, t, Qs)
            acceptable = [before]
            if s['mid']:
                got = []
                D = Ds[s['mid']['data']]
                rs = ctx.threads_run([lambda: fit(m, D), lambda: got.append(dump(m, s['how']))], None, sched=s['mid']['sched'])
                for r in rs:
                    if r[0] == 'exc':
                        raise Violation('save', 'saving while training fails with {}: {}'.format(type(r[1]).__name__, r[1]))
                acceptable.append(obs_all(m, t, Qs))
                blob = got[0]
                ctx.probe('midfit', ctx.last.n_switches > 0)
            else:
                try:
                    blob = dump(m, s['how'])
                except Exception as e:
                    raise Violation('save', 'saving a model fails with {}: {}'.format(type(e).__name__, e))
                after = obs_all(m, t, Qs)
                if after != before:
                    raise Violation('save', 'saving changes the model: ' + describe(before, after))
            later = None
            if s['train'] is not None and not s['mid']:
                def train():
                    r = ctx.do(lambda: fit(m, Ds[s['train']]))
                    return (r[0], type(r[1]).__name__ if r[0] == 'exc' else None, obs_all(m, t, Qs))
                later = ctx.fork(train)
            out.append((s, blob, acceptable, later, None if s['mid'] else obs.params_of(m)))
    save_points(0)
    for i, op in enumerate(plan['ops']):
        m = history.apply(ctx, m, ms, op, Ds, Qs)
        save_points(i + 1)
    return out


def restore(plan, s, blob, ctx):
    """The process after the crash."""
    t = plan['model']['t']
    Ds, Qs = build(plan)
    if s['torn'] is not None:
        cut = blob[:min(int(s['torn'] * len(blob)), len(blob) - 1)]
        try:
            m = load(cut, s['how'])
        except Exception:
            return 'rejected', None, None, None
    else:
        try:
            m = load(blob, s['how'])
        except Exception as e:
            return 'failed', '{}: {}'.format(type(e).__name__, e), None, None
    params = obs.params_of(m)
    got = obs_all(m, t, Qs)
    later = None
    if s['train'] is not None and not s['mid']:
        r = ctx.do(lambda: fit(m, Ds[s['train']]))
        later = (r[0], type(r[1]).__name__ if r[0] == 'exc' else None, obs_all(m, t, Qs))
    return 'restored', got, later, params


def digest(v):
    return hashlib.sha256(repr(v).encode()).hexdigest()


def restore_main(path):
    from .. import runner
    with open(path, 'rb') as f:
        plan, s, blob = pickle.load(f)
    st, got, later, params = restore(plan, s, blob, runner.Ctx())
    print('DIGEST', st, digest(got), digest(later))
    return 0


def interpreter(plan, s, blob):
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix='c13-')
    try:
        p = os.path.join(scratch, 'save.bin')
        with open(p, 'wb') as f:
            pickle.dump((plan, s, blob), f)
        e = {k: v for k, v in os.environ.items() if k not in ('VERIF_PINNED', 'PYTHONHASHSEED')}
        e['VERIF_HASHSEED'] = str(plan['hash'])
        r = subprocess.run([sys.executable, os.path.join(env.VERIF, 'check.py'), 'restore', p], env=e, cwd=scratch,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    finally:
        shutil.rmtree(scratch)
    out = r.stdout.decode(errors='replace')
    ds = [ln.split()[1:] for ln in out.splitlines() if ln.startswith('DIGEST ')]
    if not ds:
        raise RuntimeError('fresh interpreter failed: ' + out[-800:])
    return ds[0]


def run(plan, ctx):
    t = plan['model']['t']
    require(plan['saves'], 'nothing saved')
    saved = ctx.fork(lambda: write_process(plan, ctx))
    fresh_done = False
    for s, blob, acceptable, later, params in saved:
        st, got, later2, params2 = ctx.fork(lambda: restore(plan, s, blob, ctx))
        ctx.fault('crash')
        ctx.note(st, digest(got))
        if st == 'failed':
            raise Violation('restore', 'a complete save can not be restored: {}'.format(got))
        if s['torn'] is not None:
            ctx.fault('torn-write')
            ctx.probe('torn')
            ctx.probe('torn-rejected', st == 'rejected')
            if st == 'rejected':
                continue
        ctx.probe(s['how'].rstrip('2345'))
        un = all(obs.is_untrained(o) for o in got)
        if got not in acceptable and not (un and (s['mid'] or s['torn'] is not None)):
            raise Violation('restored', 'the restored model: ' + describe(acceptable[0], got))
        if params is not None and params2 != params:
            raise Violation('params', 'the restored parameters are {} instead of {}'.format(params2, params))
        if later is not None and s['torn'] is None:
            if later[0] != later2[0] or later[1] != later2[1] or later[2] != later2[2]:
                raise Violation('retrained', 'training the restored model ({} {}): {}'.format(
                    later2[0], later2[1], describe(later[2], later2[2])))
            ctx.probe('retrained')
        if plan['fresh'] and s['torn'] is None and not fresh_done:
            fresh_done = True
            a = interpreter(plan, s, blob)
            if a != ['restored', digest(got), digest(later2)]:
                raise Violation('interpreter', 'a fresh interpreter restores the model differently ({})'.format(a[0]))
            ctx.probe('interpreter')
        ctx.probe('untrained' if un else 'trained')
        ctx.probe('continued', s['after'] < len(plan['ops']))
    ctx.probe('after-fault', any(o['op'] in ('fault', 'optfail', 'kill', 'verbose') for o in plan['ops']))
    ctx.probe('hyper', not gen.is_perp(t))
    ctx.probe('pruned', bool(plan['model']['prune']))
    ctx.probe('no-optimizer', not gen.is_perp(t) and plan['model']['opt'] is None)
    ctx.probe('sparse', any(s['fmt'] in gen.SPARSE for s in plan['data']))
