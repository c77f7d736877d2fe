"""C07  Training and answers are reproducible and independent of ambient state."""
import ctypes
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np

from .common import *  # noqa: F401,F403

ID = 'C07'
RUNS = {'quick': 1100, 'thorough': 10000}
REAL = REAL_CORE + ['fresh Python interpreters with different hash seeds']
STUB = STUB_CORE + ['operating system entropy (seeded)', 'clock (jumping)', 'asynchronous exceptions']
ASSUMPTIONS = ASSUME_CORE + ['CPU dispatch of numpy and OpenBLAS is pinned to the baseline kernels: their SIMD kernels round '
                             'differently depending on memory alignment, outside of the control of the package.']
RULE = ('A run trains and queries a seeded model in several processes that differ in the state of the global generators, the '
        'entropy of the operating system, the clock and its jumps, and earlier numerical work (a few runs: fresh interpreters '
        'with different hash seeds and working directories) and compares all answers bit by bit; the global generators are '
        'compared with their state before the call at library steps.  Non-trivial: two completed trainings were compared.')
PROBES = ['DE', 'RH', 'R2P', 'QR', 'OP', 'SA', 'GD', 'default-opt', 'perp', 'clock-jumps', 'earlier-work', 'interpreters', 'ties',
          'interrupt', 'sparse', 'pruned', 'concurrent']


def gen_plan(rng, tier):
    cls = rng.random() < 0.6
    k = gen.pick_k(rng, [2, 2, 3])
    d = gen.pick_d(rng, [1, 2, 2, 3])
    ms = gen.model_spec(rng, types=('PC', 'HC', 'HC') if cls else ('PR', 'HR', 'HR'), k=k, d=d)
    s = gen.data_spec(rng, cls, d=d, k=k, n=rng.choice([4, 8, 12, 16]))
    if not gen.is_perp(ms['t']) and d == 2 and rng.random() < 0.08:
        ms['opt'] = None                # the default optimizer
        s['n'] = rng.choice([4, 6])
        ms['sp'] = 0.0
    gen.tame(ms, [s])
    return {'model': ms, 'data': [s], 'q': rng.randrange(1 << 20), 'ambient': [ambient(rng), ambient(rng)],
            'every': rng.choice([1, 4, 16]), 'fault': gen.fault_spec(rng) if rng.random() < 0.3 else None,
            'fresh': rng.random() < (0.02 if tier == 'quick' else 0.01), 'hash': [rng.randrange(1, 1 << 31) for _ in range(2)],
            'sched': gen.sched_spec(rng, 2000) if rng.random() < 0.2 else None}


def ambient(rng):
    return {'np': rng.randrange(1 << 31), 'py': rng.randrange(1 << 31), 'entropy': rng.randrange(1 << 31),
            'clock': rng.choice([0.0, 1e9, 1.7e9, 4e9]), 'jumps': [[rng.randrange(1, 30), rng.choice([-1e6, -1.0, 3600.0, 1e8])]
                                                                  for _ in range(rng.choice([0, 1, 3]))],
            'work': rng.choice([0, 0, 1, 2, 3]), 'steal': rng.random() < 0.3}


def set_ambient(a):
    if a['work']:
        rs = np.random.RandomState(a['np'] % 1000)
        keep = []
        for i in range(20 * a['work']):
            x = rs.normal(size=(rs.randint(1, 60), 3))
            keep.append(np.sort(x, axis=0) @ x.T if i % 2 else x)
            if i % 3 == 0:
                keep.pop(rs.randint(0, len(keep)))
        set_ambient.keep = keep
    np.random.seed(a['np'])
    random.seed(a['py'])
    if a['steal']:
        np.random.normal()       # leaves a cached gaussian behind
        random.gauss(0, 1)
    env.Clock.start(a['clock'], a['jumps'])
    env.Entropy.start(a['entropy'])


_NP = np.random.mtrand._rand._bit_generator.ctypes.state_address
_PY = id(random._inst) + object.__basicsize__


def rng_raw():
    """The Mersenne Twister words of both global generators, read in place (cheap enough for every step)."""
    return ctypes.string_at(_NP, 625 * 4) + ctypes.string_at(_PY, 625 * 4)


def rng_state():
    s = np.random.get_state()
    return s[1].tobytes(), s[2:], random.getstate()


def watcher():
    raw, full = rng_raw(), rng_state()

    def watch():
        return None if rng_raw() == raw else 'the state of a global random number generator was modified'

    def after(what):
        if rng_state() != full:
            raise Violation('modified', 'the state of a global random number generator was modified (seen after {})'.format(what))
    return watch, after


def work(plan, ctx=None):
    """Builds, trains and asks; returns frozen answers."""
    ms = plan['model']
    D = gen.build_data(plan['data'][0])
    Qs = [gen.query_matrix(D, plan['q'], 16)]
    m = gen.build_model(ms)
    if ctx is None:
        fit(m, D)
        return obs_all(m, ms['t'], Qs), str(m)
    watch, after = watcher()
    kw = dict(watch=watch, watch_every=plan['every'])
    r = ctx.do(lambda: fit(m, D), **kw)
    if r[0] == 'exc':
        raise Violation('fit-fails', 'training raises {}: {}'.format(type(r[1]).__name__, r[1]))
    after('training')
    out = ctx.do(lambda: obs_all(m, ms['t'], Qs), **kw)
    if out[0] == 'exc':
        raise out[1]
    after('queries')
    return out[1], str(m)


def digest(v):
    return hashlib.sha256(repr(v).encode()).hexdigest()


def digest_main(path):
    plan = json.load(open(path))
    set_ambient(plan['ambient'][plan['which']])
    print('DIGEST', digest(work(plan)))
    return 0


def interpreter(plan, i, scratch):
    p = os.path.join(scratch, 'plan{}.json'.format(i))
    with open(p, 'w') as f:
        json.dump(dict(plan, which=i), f)
    e = {k: v for k, v in os.environ.items() if k not in ('VERIF_PINNED', 'PYTHONHASHSEED')}
    e['VERIF_HASHSEED'] = str(plan['hash'][i])
    e['LC_ALL'] = ['C', 'C.UTF-8'][i]
    r = subprocess.run([sys.executable, os.path.join(env.VERIF, 'check.py'), 'digest', p], env=e, cwd=['/', scratch][i],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    out = r.stdout.decode(errors='replace')
    ds = [ln.split()[1] for ln in out.splitlines() if ln.startswith('DIGEST ')]
    if not ds:
        raise RuntimeError('fresh interpreter failed: ' + out[-800:])
    return ds[0]


def run(plan, ctx):
    ms = plan['model']
    t = ms['t']
    D = gen.build_data(plan['data'][0])
    require(hyper_ok(ms, D.d), 'optimizer needs more than one feature')

    def one(a):
        def body():
            set_ambient(a)
            return work(plan, ctx)
        return ctx.fork(body)
    want = one(plan['ambient'][0])
    got = one(plan['ambient'][1])
    if got[0] != want[0]:
        raise Violation('ambient', 'in another ambient state: ' + describe(want[0], got[0]))
    ctx.children += 0
    # in this process, after an interrupted attempt, or next to another training
    set_ambient(plan['ambient'][1])
    m = gen.build_model(ms)
    watch, after = watcher()
    kw = dict(watch=watch, watch_every=plan['every'])
    if plan['fault']:
        def pts():
            c = gen.build_model(ms)
            s = ctx.sim()
            s.run(lambda: fit(c, D))
            return s.threads[0].points
        ctx.do(lambda: fit(m, D), gen.resolve_fault(plan['fault'], ctx.fork(pts)), **kw)
    if plan['sched']:
        other = gen.build_model(ms)
        rs = ctx.threads_run([lambda: fit(m, D), lambda: fit(other, D)], None, sched=plan['sched'], **kw)
        ctx.probe('concurrent')
    else:
        rs = [ctx.do(lambda: fit(m, D), **kw)]
    if any(r[0] == 'exc' for r in rs):
        raise Violation('fit-fails', 'training fails in another ambient state')
    after('training')
    Qs = [gen.query_matrix(D, plan['q'], 16)]
    got = obs_all(m, t, Qs)
    if got != want[0]:
        raise Violation('ambient', 'in another ambient state: ' + describe(want[0], got))
    if plan['fresh']:
        import shutil
        import tempfile
        scratch = tempfile.mkdtemp(prefix='c07-')
        try:
            a, b = interpreter(plan, 0, scratch), interpreter(plan, 1, scratch)
        finally:
            shutil.rmtree(scratch)
        if a != b:
            raise Violation('interpreter', 'two fresh interpreters with hash seeds {} give different results'.format(plan['hash']))
        ctx.probe('interpreters', 2)
    ctx.probe('perp' if gen.is_perp(t) else ms['opt']['o'] if ms['opt'] else 'default-opt')
    ctx.probe('clock-jumps', any(a['jumps'] for a in plan['ambient']))
    ctx.probe('earlier-work', any(a['work'] for a in plan['ambient']))
    ctx.probe('ties', D.spec['kind'] in ('grid', 'dups', 'binary'))
    ctx.probe('sparse', D.spec['fmt'] in gen.SPARSE)
    ctx.probe('pruned', ms['prune'])
    ctx.fault('clock-jump', sum(len(a['jumps']) for a in plan['ambient']))
    ctx.note(want[1])
