"""The simulator: one run token, simulated threads, bytecode-level preemption, fault injection, step invariants."""
import _thread
import dis
import gc
import sys
import types
import zlib

from . import env


class Violation(Exception):
    """A property does not hold.  `kind` is the violation class kept fixed while minimising."""
    def __init__(self, kind, msg=''):
        super().__init__('{}: {}'.format(kind, msg))
        self.kind = kind
        self.msg = msg


class Discard(Exception):
    """The plan does not describe a meaningful run (only ever raised on shrunken plans or ambiguous data)."""


class InjectedError(Exception):
    """An ordinary exception raised by the simulator in place of a failing operation."""


class StepBudget(BaseException):
    """The operation executed more library steps than it is allowed to."""


class SimDeadlock(BaseException):
    """No simulated thread can run."""


FAULTS = {
    'interrupt': KeyboardInterrupt,
    'memory': MemoryError,
    'error': InjectedError,
    'exit': SystemExit,
}


class Thr:
    __slots__ = ('id', 'sem', 'state', 'fn', 'result', 'steps', 'fault', 'waiting', 'on_lock', 'doomed', 'fired_at',
                 'ident', 'points', 'fault_at')

    def __init__(self, id, fn, fault=None):
        self.id = id
        self.fn = fn
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.state = 'ready'
        self.result = None
        self.steps = 0
        self.points = 0
        self.fault_at = fault[0] if fault is not None else -1
        self.ident = None
        self.fault = fault          # (number of the fault point, kind[, number of points in a row]) or None
        self.waiting = ()
        self.on_lock = None
        self.doomed = False
        self.fired_at = None


TOOL = 4
_mon = sys.monitoring
_points = {}        # id of code object -> (code object, {offset: 1 a fault can arrive here | 2 shared state is written here})
_sim = None         # the simulation that is running, if any


STORES = ('STORE_ATTR', 'STORE_SUBSCR', 'STORE_GLOBAL', 'STORE_SLICE', 'DELETE_ATTR', 'DELETE_SUBSCR', 'STORE_DEREF')


def _special(code):
    """Offsets at which CPython itself can deliver an asynchronous exception (after a call, on function entry, at
    a loop head) or fail to allocate (arithmetic, building a container).  In particular a
    fault never arrives between the end of a `with` block and its `__exit__`, where none can arrive in reality."""
    pts = {}
    after = False
    for ins in dis.get_instructions(code):
        n = ins.opname
        if after or n == 'BINARY_OP' or n.startswith('BUILD_'):
            pts[ins.offset] = pts.get(ins.offset, 0) | 1
        if n == 'JUMP_BACKWARD':
            pts[ins.argval] = pts.get(ins.argval, 0) | 1
        if n in STORES:
            pts[ins.offset] = pts.get(ins.offset, 0) | 2
        after = n in ('CALL', 'CALL_FUNCTION_EX', 'RESUME')
    return pts


def in_pkg(filename):
    return filename.startswith(env.PKG_DIR) and not filename.endswith('_version.py')


def _code_objects():
    todo = [f.__code__ for f in gc.get_objects() if type(f) is types.FunctionType and in_pkg(f.__code__.co_filename)]
    seen = set()
    while todo:
        c = todo.pop()
        if c not in seen:
            seen.add(c)
            todo.extend(k for k in c.co_consts if type(k) is types.CodeType)
    return seen


def _on_instruction(code, offset, _ident=_thread.get_ident):
    s = _sim
    if s is None:
        return
    t = s.cur
    if t is None or t.ident != _ident():
        return      # code that runs outside of the simulated threads
    s.step = n = s.step + 1
    t.steps += 1
    s.event_crc = (s.event_crc * 1000003 ^ offset) & 0xffffffffffff
    special = _points[id(code)][1].get(offset)
    if special is not None:
        if special & 1:
            t.points = p = t.points + 1
            if p == t.fault_at:
                s._inject(t, code, offset)
        if special & s.unit:
            s.stores += 1
            if s.stores == s.switch_store:
                s._switch_now(code, offset)
    if n >= s.next_stop:
        s._stop(code, offset)


def arm():
    """Instrument every function of the package; done once per process, before any simulated thread exists."""
    if _mon.get_tool(TOOL) is None:
        _mon.use_tool_id(TOOL, 'verif-sim')
        _mon.register_callback(TOOL, _mon.events.INSTRUCTION, _on_instruction)
    for c in _code_objects():
        if id(c) not in _points:
            _points[id(c)] = (c, _special(c))
            _mon.set_local_events(TOOL, c, _mon.events.INSTRUCTION)


class Sim:
    """One simulated execution.

    A step is one bytecode instruction of the package.
    sched     {'switches': [(gap, choice)...], 'fin': [choice...], 'unit': 'step' | 'store' | 'point'}: after `gap` steps (or
              just before the `gap`-th write to shared state, or after the `gap`-th fault point) hand the token to ready thread number `choice`; `fin` decides
              who runs when a thread finishes or blocks.
    """
    def __init__(self, sched=None, budget=None, watch=None, watch_every=1):
        sched = sched or {}
        switches, fin = sched.get('switches', ()), sched.get('fin', ())
        self.step = 0
        self.budget = budget
        self.watch = watch
        self.watch_every = watch_every
        self.switches = [tuple(s) for s in switches]
        self.isw = 0
        self.unit = {'store': 2, 'point': 1}.get(sched.get('unit'), 0)     # what is counted instead of steps
        self.stores = 0
        first = max(1, self.switches[0][0]) if self.switches else None
        self.switch_at = None if self.unit else first
        self.switch_store = first if self.unit else None
        self.fin = list(fin)
        self.ifin = 0
        self.threads = []
        self.cur = None
        self.main_sem = _thread.allocate_lock()
        self.main_sem.acquire()
        self.n_switches = 0
        self.n_watch = 0
        self.sched_crc = 0      # which interleaving was executed
        self.event_crc = 0      # which steps were executed
        self.fired = {}         # fault kind -> number of times it actually fired
        self.fired_where = []
        self.deadlocks = 0
        self.watch_error = None
        self._plan_stop()

    # ---- steps ----------------------------------------------------------------------------------
    def _inject(self, t, code, offset):
        kind = t.fault[1]
        n = t.fault[2] if len(t.fault) > 2 else 1
        if n > 1:       # it goes on for a while
            t.fault, t.fault_at = (t.points + 1, kind, n - 1), t.points + 1
        else:
            t.fault, t.fault_at = None, -1
        self.fired[kind] = self.fired.get(kind, 0) + 1
        t.fired_at = where(code, offset)
        self.fired_where.append(t.fired_at)
        raise FAULTS[kind]('injected fault at {}'.format(t.fired_at))

    def _plan_stop(self):
        """The next step at which something other than counting has to happen."""
        n = self.budget + 1 if self.budget is not None else 1 << 62
        if self.watch is not None:
            n = min(n, (self.step // self.watch_every + 1) * self.watch_every)
        if self.switch_at is not None:
            n = min(n, self.switch_at)
        self.next_stop = n

    def _stop(self, code, offset):
        if self.budget is not None and self.step > self.budget:
            raise StepBudget('more than {} library steps'.format(self.budget))
        if self.watch is not None and self.step % self.watch_every == 0 and self.watch_error is None:
            self.n_watch += 1
            msg = self.watch()
            if msg:
                self.watch_error = '{} (at {})'.format(msg, where(code, offset))
        if self.switch_at is not None and self.step >= self.switch_at:
            self._switch_now(code, offset)
        else:
            self._plan_stop()

    def _switch_now(self, code, offset):
        choice = self.switches[self.isw][1]
        self.isw += 1
        gap = max(1, self.switches[self.isw][0]) if self.isw < len(self.switches) else None
        if self.unit:
            self.switch_store = None if gap is None else self.stores + gap
        else:
            self.switch_at = None if gap is None else self.step + gap
            self._plan_stop()
        self._preempt(choice, code, offset)

    # ---- scheduling -----------------------------------------------------------------------------
    def _ready(self):
        return [t for t in self.threads if t.state == 'ready']

    def _preempt(self, choice, code, offset):
        cur = self.cur
        ready = [t for t in self.threads if t.state == 'ready' and t is not cur]
        if not ready:
            return
        target = ready[choice % len(ready)]
        self.n_switches += 1
        self.sched_crc = zlib.crc32('{}>{}@{}:{}'.format(cur.id, target.id, code.co_name, offset).encode(), self.sched_crc)
        self._hand(target, cur)

    def _hand(self, target, cur):
        self.cur = target
        target.sem.release()
        cur.sem.acquire()

    def _next_ready(self):
        ready = self._ready()
        if not ready:
            return None
        c = self.fin[self.ifin % len(self.fin)] if self.fin else 0
        self.ifin += 1
        return ready[c % len(ready)]

    def _give_up_token(self, cur):
        """cur can not run now (blocked or joining); run someone else until it can."""
        nxt = self._next_ready()
        if nxt is None:
            # nobody can run: break the deadlock by failing the lock waiters
            self.deadlocks += 1
            for t in self.threads:
                if t.state == 'lock':
                    t.state, t.doomed, t.on_lock = 'ready', True, None
            nxt = self._next_ready()
        if nxt is cur:
            return
        self._hand(nxt, cur)

    def block_on(self, lock):
        cur = self.cur
        cur.state, cur.on_lock = 'lock', lock
        self._give_up_token(cur)
        if cur.doomed:
            cur.doomed = False
            raise SimDeadlock('deadlock')

    def wake(self, lock):
        for t in self.threads:
            if t.state == 'lock' and t.on_lock is lock:
                t.state, t.on_lock = 'ready', None

    def yield_point(self, choice=0):
        """A voluntary scheduling point in simulator code (never inside library code)."""
        cur = self.cur
        if cur is None:
            return
        ready = [t for t in self.threads if t.state == 'ready' and t is not cur]
        if ready:
            self.n_switches += 1
            self._hand(ready[choice % len(ready)], cur)

    # ---- threads --------------------------------------------------------------------------------
    def _body(self, t):
        t.ident = _thread.get_ident()
        t.sem.acquire()
        try:
            t.result = ('ok', t.fn())
        except BaseException as e:      # noqa: B902 - every outcome of the operation is data
            t.result = ('exc', e)
        self._finish(t)

    def _finish(self, t):
        t.state = 'done'
        for p in self.threads:
            if p.state == 'join' and all(c.state == 'done' for c in p.waiting):
                p.state = 'ready'
        nxt = self._next_ready()
        if nxt is None:
            blocked = [x for x in self.threads if x.state == 'lock']
            if blocked:
                self.deadlocks += 1
                for x in blocked:
                    x.state, x.doomed, x.on_lock = 'ready', True, None
                nxt = self._next_ready()
        if nxt is None:
            self.cur = None
            self.main_sem.release()
        else:
            self.cur = nxt
            nxt.sem.release()

    def run_threads(self, fns, faults=None):
        """Run the functions as simulated threads; returns [('ok', value) | ('exc', exception)] in order."""
        fns = list(fns)
        if not fns:
            return []
        faults = faults or [None] * len(fns)
        base = len(self.threads)
        new = [Thr(base + i, fn, fl) for i, (fn, fl) in enumerate(zip(fns, faults))]
        self.threads.extend(new)
        for t in new:
            _thread.start_new_thread(self._body, (t,))
        global _sim
        if self.cur is None:
            outer = env._current_sim, _sim
            env._current_sim = _sim = self
            try:
                first = self._next_ready()
                self.cur = first
                first.sem.release()
                self.main_sem.acquire()
            finally:
                env._current_sim, _sim = outer
        else:
            cur = self.cur
            cur.waiting = tuple(new)
            cur.state = 'join'
            self._give_up_token(cur)
        return [t.result for t in new]

    def run(self, fn, fault=None):
        """Run one function as the only simulated thread."""
        return self.run_threads([fn], [fault])[0]


def where(code, offset):
    line = None
    for start, end, ln in code.co_lines():
        if start <= offset < end:
            line = ln
            break
    return '{}:{}'.format(code.co_qualname, line)


def measure(fn, budget=None):
    """Execute fn once as a simulated thread; returns (outcome, steps, fault points)."""
    s = Sim(budget=budget)
    r = s.run(fn)
    return r, s.step, s.threads[0].points
