"""Executes many seeded simulated runs of one property, minimises a failure, writes replay file and evidence."""
import collections
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import re
import select
import signal
import struct
import sys
import traceback

from . import core, env

BUDGET = 20_000_000      # library steps any single simulated execution may take
RUN_WALL = 120          # seconds of real time after which a run is abandoned (an error of the check, never a pass)
CRASHES = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)
CAP = {'quick': 300, 'thorough': 720}


# ---- one run ------------------------------------------------------------------------------------
class Ctx:
    """What a property's run() gets: a factory of simulations, process isolation, and counters."""
    def __init__(self, tier='quick'):
        self.tier = tier
        self.steps = 0
        self.switches = 0
        self.threads = 0
        self.watches = 0
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.sig = 0
        self.where = []
        self.simulated_seconds = 0.0
        self.children = 0
        self.longest = 0

    def sim(self, **kw):
        kw.setdefault('budget', BUDGET)
        return core.Sim(**kw)

    def done(self, s):
        """Account for a finished simulation."""
        self.steps += s.step
        self.longest = max(self.longest, s.step)
        self.switches += s.n_switches
        self.threads += len(s.threads)
        self.watches += s.n_watch
        self.faults.update(s.fired)
        self.where += s.fired_where
        self.note(s.sched_crc, s.event_crc)
        if s.deadlocks:
            raise core.Violation('deadlock', 'no simulated thread could run')
        if s.watch_error:
            raise core.Violation('modified', s.watch_error)

    def note(self, *things):
        self.sig = core.zlib.crc32(repr(things).encode(), self.sig)

    def probe(self, name, n=1):
        if n:
            self.probes[name] += n

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] += n

    def do(self, fn, fault=None, **kw):
        """fn as the only simulated thread.  Returns ('ok', value) or ('exc', exception)."""
        s = self.sim(**kw)
        r = s.run(fn, fault)
        self.done(s)
        if r[0] == 'exc' and isinstance(r[1], core.StepBudget):
            raise core.Violation('endless', 'operation exceeded {} library steps'.format(s.budget))
        self.last = s
        return r

    def threads_run(self, fns, faults=None, **kw):
        s = self.sim(**kw)
        rs = s.run_threads(fns, faults)
        self.done(s)
        for r in rs:
            if r[0] == 'exc' and isinstance(r[1], core.StepBudget):
                raise core.Violation('endless', 'operation exceeded {} library steps'.format(s.budget))
        self.last = s
        return rs

    COUNTS = ('steps', 'switches', 'threads', 'watches', 'children')

    def fork(self, fn):
        """fn() in a forked process that shares nothing with this one afterwards; its value comes back pickled, and what
        was counted there is added to the counters here."""
        self.children += 1

        def body():
            for k in self.COUNTS:
                setattr(self, k, 0)
            self.faults, self.probes, self.where, self.sig = collections.Counter(), collections.Counter(), [], 0
            v = fn()
            return v, [getattr(self, k) for k in self.COUNTS], self.faults, self.probes, self.where[:50], self.sig, self.longest
        st, val, crashed = fork_call(body)
        if crashed:
            raise RuntimeError('isolated process died: {}'.format(val))
        if st == 'exc':
            raise val
        v, counts, faults, probes, where, sig, longest = val
        self.longest = max(self.longest, longest)
        for k, n in zip(self.COUNTS, counts):
            setattr(self, k, getattr(self, k) + n)
        self.faults.update(faults)
        self.probes.update(probes)
        self.where += where
        self.note(sig)
        return v

    def alone(self, fn, **kw):
        """(outcome value or exception, steps, fault points) of fn run as a lone simulated thread in a pristine process.
        fn must return something that pickles."""
        def body():
            s = core.Sim(budget=BUDGET, **kw)
            r = s.run(fn)
            if r[0] == 'exc':
                if isinstance(r[1], core.StepBudget):
                    raise core.Violation('endless', 'operation exceeded {} library steps'.format(BUDGET))
                if isinstance(r[1], (core.Violation, core.Discard)):
                    raise r[1]
                r = ('exc', type(r[1]).__name__, str(r[1])[:300])
            return r, s.step, s.threads[0].points
        return self.fork(body)


def _pack(v):
    try:
        return pickle.dumps(v)
    except Exception as e:
        return pickle.dumps(('err', 'result does not pickle: {!r}'.format(e)))


def fork_call(fn, wall=RUN_WALL):
    """('ok', value) or ('exc', Violation/Discard) from a forked child; third item True if it died or timed out."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            try:
                res = ('ok', fn())
            except (core.Violation, core.Discard) as e:
                res = ('exc', (type(e).__name__, getattr(e, 'kind', ''), getattr(e, 'msg', str(e))))
            except BaseException:
                res = ('err', traceback.format_exc())
            data = _pack(res)
            data = struct.pack('<Q', len(data)) + data
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    buf = bytearray()
    end = env.real_time['monotonic']() + wall
    timed_out = False
    while True:
        left = end - env.real_time['monotonic']()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            timed_out = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return 'err', 'wall-clock limit of {} s exceeded'.format(wall), True
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in CRASHES:
        return 'exc', core.Violation('crash', 'the interpreter was killed by signal {}'.format(os.WTERMSIG(status))), False
    if len(buf) < 8 or len(buf) != 8 + struct.unpack('<Q', buf[:8])[0]:
        return 'err', 'process ended with status {}'.format(status), True
    st, val = pickle.loads(bytes(buf[8:]))
    if st == 'exc':
        cls, kind, msg = val
        return 'exc', (core.Violation(kind, msg) if cls == 'Violation' else core.Discard(msg)), False
    return st, val, st == 'err'


def from_package(e):
    """The exception was raised by the package (or by something it called), not by the check and not by an injected fault."""
    if not isinstance(e, Exception) or isinstance(e, core.InjectedError) or 'injected fault' in str(e):
        return False
    inside, tb = False, e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(env.VERIF + os.sep):
            inside = False
        elif f.startswith(env.PKG_DIR):
            inside = True
        tb = tb.tb_next
    return inside


def execute(mod, plans, tier='quick', each=None):
    """Simulated runs, one after the other, in one process of their own; stops at the first that is not ok.
    Returns [(status, payload, stats)] of those executed."""
    if isinstance(plans, dict):
        plans = [plans]

    def one(plan):
        ctx = Ctx(tier)
        try:
            mod.run(plan, ctx)
            st = ('ok', None)
        except core.Violation as e:
            st = ('viol', (e.kind, e.msg))
        except core.Discard as e:
            st = ('discard', str(e))
        except BaseException as e:
            # raised by the package on a path where the property does not expect it: a failure of the package;
            # anything else is an error of the check
            st = ('viol', ('crash', 'the package raises {}: {}'.format(type(e).__name__, str(e)[:200]))) \
                if from_package(e) else ('err', traceback.format_exc())
        return st + (dict(steps=ctx.steps, switches=ctx.switches, threads=ctx.threads, watches=ctx.watches,
                          faults=dict(ctx.faults), probes=dict(ctx.probes), sig=ctx.sig, where=ctx.where[:50],
                          secs=ctx.simulated_seconds + env.Clock.slept, children=ctx.children, longest=ctx.longest),)

    def body():
        out = []
        for plan in plans:
            out.append(one(plan))
            if out[-1][0] in ('viol', 'err'):
                break
        return out
    st, val, crashed = fork_call(body, RUN_WALL * (1 if len(plans) == 1 else 3))
    if st == 'exc' and isinstance(val, core.Violation):
        # the process died: find the run that killed it
        if len(plans) == 1:
            return [('viol', (val.kind, val.msg), {})]
        out = []
        for plan in plans:
            out += execute(mod, plan, tier)
            if out[-1][0] in ('viol', 'err'):
                break
        return out
    if crashed or st != 'ok':
        return [('err', str(val), {})]
    return val


def outcome_of(mod, plans, tier='quick'):
    r = execute(mod, plans, tier)
    for x in r:
        if x[0] in ('viol', 'err'):
            return x
    return r[-1]


def rng_for(prop, seed, i):
    return random.Random(int.from_bytes(hashlib.sha256('{}:{}:{}'.format(prop, seed, i).encode()).digest()[:8], 'big'))


def plan_for(mod, seed, i, tier):
    plan = mod.gen_plan(rng_for(mod.ID, seed, i), tier)
    return json.loads(json.dumps(plan))


# ---- many runs ----------------------------------------------------------------------------------
def _worker(mod, seed, tier, counter, lock, stop, batches, deadline, out, corpus):
    gc.disable()
    while True:
        with lock:
            b = counter.value
            if stop.value or b >= len(batches) or env.real_time['monotonic']() > deadline:
                break
            counter.value = b + 1
        idx = batches[b]
        try:
            plans = [corpus[i] if i < len(corpus) else plan_for(mod, seed, i - len(corpus), tier) for i in idx]
        except BaseException:
            out.put((idx[0], 'err', 'generator: ' + traceback.format_exc(), {}, None))
            stop.value = 1
            break
        for i, plan, (st, payload, stats) in zip(idx, plans, execute(mod, plans, tier)):
            if st in ('viol', 'err'):
                stop.value = 1
            out.put((i, st, payload, stats, plans[:idx.index(i) + 1] if st in ('viol', 'err') else None))
    out.put(None)


def load(prop):
    return importlib.import_module('sim.props.' + prop.lower())


def corpus_plans(prop):
    d = os.path.join(env.VERIF, 'corpus', prop)
    if not os.path.isdir(d):
        return []
    return [json.load(open(os.path.join(d, f)))['plans'][-1] for f in sorted(os.listdir(d)) if f.endswith('.json')]


def campaign(mod, seed, tier, total=None, workers=None, collect=None):
    import multiprocessing as mp
    mpc = mp.get_context('fork')
    corpus = corpus_plans(mod.ID)
    total = (mod.RUNS[tier] if total is None else total) + len(corpus)
    workers = workers or min(8, os.cpu_count() or 1)
    counter, stop = mpc.Value('i', 0, lock=False), mpc.Value('i', 0, lock=False)
    lock, out = mpc.Lock(), mpc.Queue()
    deadline = env.real_time['monotonic']() + CAP[tier]
    core.arm()
    if hasattr(mod, 'prepare'):
        mod.prepare()
    gc.collect()
    gc.freeze()
    size = getattr(mod, 'BATCH', 12)
    batches = [[i] for i in range(len(corpus))] + [list(range(a, min(a + size, total)))
                                                   for a in range(len(corpus), total, size)]
    ps = [mpc.Process(target=_worker, args=(mod, seed, tier, counter, lock, stop, batches, deadline, out, corpus),
                      daemon=False) for _ in range(workers)]
    for p in ps:
        p.start()
    agg = dict(runs=0, ok=0, discard=0, steps=0, switches=0, threads=0, watches=0, secs=0.0, children=0, longest=0)
    faults, probes = collections.Counter(), collections.Counter()
    sigs, bad, live = set(), [], len(ps)
    discards = collections.Counter()
    while live:
        m = out.get()
        if m is None:
            live -= 1
            continue
        i, st, payload, stats, plan = m
        if collect is not None:
            collect[i] = (st, payload, stats)
        agg['runs'] += 1
        for k in ('steps', 'switches', 'threads', 'watches', 'secs', 'children'):
            agg[k] += stats.get(k, 0)
        agg['longest'] = max(agg['longest'], stats.get('longest', 0))
        faults.update(stats.get('faults', {}))
        probes.update(stats.get('probes', {}))
        if st == 'ok':
            agg['ok'] += 1
            sigs.add(stats['sig'])
        elif st == 'discard':
            agg['discard'] += 1
            discards[payload] += 1
        else:
            bad.append((i, st, payload, plan))
    for p in ps:
        p.join()
    bad.sort(key=lambda b: b[0])
    return agg, faults, probes, sigs, bad, discards, len(corpus)


# ---- minimisation -------------------------------------------------------------------------------
SKIP_KEYS = {'seed', 'prior', 'type', 't', 'o', 'cls', 'k', 'pp', 'cube'}
SIMPLER = {'fmt': 'dense', 'yfmt': 'array', 'pk': 'array', 'kind': 'normal', 'rule': 'axis'}


def _paths(v, path=()):
    yield path, v
    if isinstance(v, dict):
        for k in sorted(v):
            if k not in SKIP_KEYS:
                yield from _paths(v[k], path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from _paths(x, path + (i,))


def _get(v, path):
    for p in path:
        v = v[p]
    return v


def _set(plan, path, value):
    plan = json.loads(json.dumps(plan))
    if not path:
        return value
    _get(plan, path[:-1])[path[-1]] = value
    return plan


def _candidates(plan):
    nodes = list(_paths(plan))
    # whole chunks of lists first
    for path, v in nodes:
        if isinstance(v, list) and len(v) > 0 and not (len(v) and isinstance(v[0], str)):
            size = len(v)
            while size >= 1:
                for a in range(0, len(v), size):
                    if size < len(v) or size == 1:
                        yield _set(plan, path, v[:a] + v[a + size:])
                    elif len(v) > 1:
                        yield _set(plan, path, [])
                size //= 2
    for path, v in nodes:
        key = path[-1] if path else None
        if isinstance(v, dict) and 'n' in v and 'kind' in v and 'rule' in v and v.get('keep') is None and v['n'] <= 3000:
            yield _set(plan, path + ('keep',), list(range(v['n'])))
    for path, v in nodes:
        key = path[-1] if path else None
        if key in SIMPLER:
            if v != SIMPLER[key]:
                yield _set(plan, path, SIMPLER[key])
        elif isinstance(v, bool):
            if v:
                yield _set(plan, path, False)
        elif isinstance(v, int) and 'keep' not in path:
            for w in (0, 1, v // 2, v - 1):
                if 0 <= w < v:
                    yield _set(plan, path, w)
        elif isinstance(v, float):
            for w in (0.0, 0.5, round(v, 1)):
                if w != v:
                    yield _set(plan, path, w)
        elif isinstance(v, (list, dict)) and key in ('fault', 'faults', 'sched', 'stop'):
            yield _set(plan, path, None)


def _size(plan):
    return len(json.dumps(plan))


def _class(kind, msg):
    """What minimisation keeps: the kind of violation and, where an operation raised, what it raised."""
    m = re.search(r'raises (.*)', msg, re.S)
    return kind, re.sub(r'[^A-Za-z ]+', '', m.group(1))[:80] if m else ''


def minimise(mod, plans, kind, tier, seconds=60, limit=2500):
    """The smallest plan list found that still ends in the same class of violation."""
    end = env.real_time['monotonic']() + seconds
    n = 0

    def fails(cand):
        nonlocal n
        n += 1
        st, payload, _ = outcome_of(mod, cand, tier)
        return st == 'viol' and _class(*payload) == kind

    if len(plans) > 1:
        if fails(plans[-1:]):
            plans = plans[-1:]
        else:
            for i in range(len(plans) - 2, -1, -1):
                if env.real_time['monotonic']() > end:
                    return plans, n
                cand = plans[:i] + plans[i + 1:]
                if fails(cand):
                    plans = cand
    head, best = plans[:-1], plans[-1]
    tried = set()
    progress = True
    while progress:
        progress = False
        for cand in _candidates(best):
            key = json.dumps(cand, sort_keys=True)
            if key in tried:
                continue
            tried.add(key)
            if env.real_time['monotonic']() > end or n >= limit:
                return head + [best], n
            if fails(head + [cand]):
                best = cand
                progress = True
                break
    return head + [best], n


# ---- commands -----------------------------------------------------------------------------------
def replay(path, quiet=False):
    r = json.load(open(path))
    mod = load(r['property'])
    core.arm()
    if hasattr(mod, 'prepare'):
        mod.prepare()
    st, payload, stats = outcome_of(mod, r['plans'], r.get('tier', 'quick'))
    out = {'status': st, 'payload': list(payload) if isinstance(payload, tuple) else payload}
    if not quiet:
        print(json.dumps(dict(out, faults=stats.get('faults'), fired_at=stats.get('where')), indent=1))
    return out


def _fresh_replay(path):
    import subprocess
    e = {k: v for k, v in os.environ.items() if k not in ('PYTHONHASHSEED', 'VERIF_PINNED')}
    p = subprocess.run([sys.executable, os.path.join(env.VERIF, 'check.py'), 'replay', path, '--json'], env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=env.VERIF, timeout=300)
    try:
        return json.loads(p.stdout.decode().strip().splitlines()[-1])
    except Exception:
        return {'status': 'err', 'payload': (p.stdout + p.stderr).decode(errors='replace')[-2000:]}


def check(prop, seed, tier, runs=None, workers=None, no_evidence=False):
    t0 = env.real_time['monotonic']()
    mod = load(prop)
    agg, faults, probes, sigs, bad, discards, n_corpus = campaign(mod, seed, tier, runs, workers)
    code, lines, violations = 0, [], 0
    viol = [b for b in bad if b[1] == 'viol']
    errs = [b for b in bad if b[1] == 'err']
    if viol:
        i, _, (kind, msg), plans = viol[0]
        os.makedirs(os.path.join(env.VERIF, 'replays'), exist_ok=True)
        small, tries = minimise(mod, plans, _class(kind, msg), tier, 20 if kind == 'endless' else 60)
        path = os.path.join(env.VERIF, 'replays', '{}-{}-{}.json'.format(prop, seed, i))
        chosen = None
        for cand in ([small, plans[-1:], plans] if small != plans else [plans]):
            st, payload, stats = outcome_of(mod, cand, tier)
            if st != 'viol':
                continue
            rep = {'property': prop, 'seed': seed, 'run': i, 'tier': tier, 'kind': payload[0], 'message': payload[1],
                   'rng': 'random.Random(sha256("{}:{}:{}"))'.format(prop, seed, i - n_corpus),
                   'minimise_executions': tries, 'trace': {'faults_fired_at': stats.get('where'),
                                                           'faults': stats.get('faults'),
                                                           'steps': stats.get('steps'),
                                                           'switches': stats.get('switches')},
                   'plans': cand, 'original_plan': plans[-1]}
            json.dump(rep, open(path, 'w'), indent=1)
            again = _fresh_replay(path)
            if again['status'] == 'viol' and again['payload'][0] == payload[0]:
                if again['payload'][1] != payload[1]:
                    lines.append('note: the replay reports the violation in other words: {}'.format(again['payload'][1]))
                chosen = payload
                break
        if chosen is None:
            code = 2
            lines.append('ERROR property={} run {} failed ({}: {}) but its replay did not'.format(prop, i, kind, msg))
        else:
            code, violations = 1, 1
            lines.append('{}: {}'.format(*chosen))
            lines.append('VIOLATION property={} replay={}'.format(prop, path))
    elif errs:
        code = 2
        lines.append('ERROR property={} run {}: {}'.format(prop, errs[0][0], errs[0][2]))
        lines.append(json.dumps(errs[0][3]))
    elif agg['ok'] < 0.5 * agg['runs'] or agg['ok'] == 0:
        code = 2
        lines.append('ERROR property={} too few meaningful runs: {} {}'.format(prop, agg, dict(discards)))
    wall = env.real_time['monotonic']() - t0
    missing = [p for p in getattr(mod, 'PROBES', []) if not probes.get(p) and not faults.get(p)]
    if not no_evidence:
        write_evidence(mod, seed, tier, agg, faults, probes, sigs, discards, wall, violations, missing, n_corpus)
    for k in known(prop):
        lines.append('KNOWN-FINDING: property={} {}'.format(prop, k))
    print('{} {}: {} runs ({} discarded), {} steps, {} switches, {} distinct, faults {}, {:.1f} s{}'.format(
        prop, tier, agg['runs'], agg['discard'], agg['steps'], agg['switches'], len(sigs), dict(faults), wall,
        ', probes never hit: {}'.format(missing) if missing else ''))
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    return code


def known(prop):
    p = os.path.join(env.VERIF, 'known_findings.txt')
    head = 'known: property={} '.format(prop)
    return [ln[len(head):].strip() for ln in open(p) if ln.startswith(head)] if os.path.exists(p) else []


def write_evidence(mod, seed, tier, agg, faults, probes, sigs, discards, wall, violations, missing, n_corpus):
    samples = []
    for i in range(3):
        samples.append({'run': i, 'plan': plan_for(mod, seed, i, tier)})
    hours = max(wall, 1e-9) / 3600
    cov = {
        'evaluations': agg['runs'],
        'distinct_nontrivial': len(sigs),
        'rule': mod.RULE + '  Counted as distinct: completed runs (discarded ones excluded) that differ in the checksum '
                'over the executed instruction trace, the interleaving and the recorded events.',
        'samples': samples,
        'seeds_per_hour': round(agg['runs'] / hours),
        'simulated_library_steps': agg['steps'],
        'simulated_time': {'unit': 'library bytecode steps; the library has no timers', 'steps': agg['steps'],
                           'virtual_clock_seconds': round(agg['secs'], 3)},
        'longest_execution_steps': agg['longest'],
        'preemptive_switches': agg['switches'],
        'simulated_threads': agg['threads'],
        'invariant_evaluations': agg['watches'],
        'isolated_processes': agg['children'],
        'faults_fired': dict(sorted(faults.items())),
        'probes': dict(sorted(probes.items())),
        'probes_never_hit': missing,
        'discarded': dict(discards),
        'corpus_plans': n_corpus,
        'real_components': mod.REAL,
        'stubbed_components': mod.STUB,
    }
    ev = {'property': mod.ID, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': mod.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': violations}
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(env.VERIF, 'evidence', mod.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
