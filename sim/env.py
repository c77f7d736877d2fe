"""Process set-up: where the code under test comes from and which ambient facilities are seams.

Import this module before anything else of the simulator.  It
  * pins BLAS to one thread (a thread pool inside a dependency would be a forgotten source of nondeterminism),
  * puts clock functions and lock constructors behind seams the simulator owns,
  * imports the package from /repo's working tree.
"""
import os
import sys

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
# numpy's and OpenBLAS's SIMD kernels round differently depending on where malloc() put their operands (numpy falls back
# to scalar code when in- and output buffers look as if they overlapped): the address space layout would be a hidden
# source of nondeterminism.  The baseline kernels do not have it.
assert 'numpy' not in sys.modules
os.environ['NPY_DISABLE_CPU_FEATURES'] = ' '.join(
    'SSSE3 SSE41 POPCNT SSE42 AVX F16C FMA3 AVX2 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL '
    'AVX512_SPR AVX512_KNL AVX512_KNM'.split())
os.environ['OPENBLAS_CORETYPE'] = 'Nehalem'
sys.dont_write_bytecode = True

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG_NAME = 'bayesian_decision_tree'
PKG_DIR = os.path.join(os.path.realpath(REPO), PKG_NAME) + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

import _thread  # noqa: E402
import threading  # noqa: E402
import time  # noqa: E402
import warnings  # noqa: E402

warnings.simplefilter('ignore')    # also: features numpy is told to disable but does not have

import numpy  # noqa: E402,F401
import pandas  # noqa: E402,F401
import scipy.optimize  # noqa: E402,F401
import scipy.sparse  # noqa: E402,F401
import scipy.special  # noqa: E402,F401
import sklearn.base  # noqa: E402,F401
import sklearn.model_selection  # noqa: E402,F401
import sklearn.metrics  # noqa: E402,F401
import scipy.optimize._differentialevolution  # noqa: E402,F401

# ---- clock seam ---------------------------------------------------------------------------------
real_time = {n: getattr(time, n) for n in
             ('time', 'monotonic', 'perf_counter', 'process_time', 'time_ns', 'monotonic_ns', 'perf_counter_ns')}
real_sleep = time.sleep


class Clock:
    """Simulated clock; only consulted while a simulated run is active."""
    active = False
    now = 0.0
    jumps = ()      # list of (call number, jump in seconds)
    calls = 0
    slept = 0.0

    @classmethod
    def start(cls, base=1.0e9, jumps=()):
        cls.active, cls.now, cls.jumps, cls.calls = True, base, dict(jumps), 0

    @classmethod
    def read(cls):
        cls.calls += 1
        cls.now += 0.001 + cls.jumps.get(cls.calls, 0.0)
        return cls.now


def _mk(name, ns):
    real = real_time[name]

    def f():
        if not Clock.active:
            return real()
        return int(Clock.read() * 1e9) if ns else Clock.read()
    f.__name__ = name
    return f


def _sleep(s):
    if not Clock.active:
        return real_sleep(s)
    Clock.now += s
    Clock.slept += s


for _n in real_time:
    setattr(time, _n, _mk(_n, _n.endswith('_ns')))
time.sleep = _sleep

# ---- lock seam ----------------------------------------------------------------------------------
_current_sim = None     # set by core.Sim while simulated threads run


class SimLock:
    """A lock that never blocks a simulated thread for real: contention is a scheduling decision."""
    _reentrant = False

    def __init__(self):
        self._real = _thread.allocate_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = _current_sim
        me = (sim.cur if sim is not None and sim.cur is not None else _thread.get_ident())
        if self._reentrant and self._owner is me and self._count:
            self._count += 1
            return True
        if sim is None or sim.cur is None:
            got = self._real.acquire(blocking, timeout)
        else:
            got = self._real.acquire(False)
            while not got and blocking:
                sim.block_on(self)
                got = self._real.acquire(False)
        if got:
            self._owner, self._count = me, 1
        return got

    def release(self):
        self._count -= 1
        if self._count > 0:
            return
        self._owner = None
        self._real.release()
        sim = _current_sim
        if sim is not None:
            sim.wake(self)

    def locked(self):
        return self._real.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    _reentrant = True


_orig_lock, _orig_rlock = threading.Lock, threading.RLock


class lock_seam:
    """While active, lock constructors called through the threading module make SimLocks."""
    def __enter__(self):
        threading.Lock, threading.RLock = SimLock, SimRLock

    def __exit__(self, *a):
        threading.Lock, threading.RLock = _orig_lock, _orig_rlock


if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
with lock_seam():
    from . import optuna_stub  # noqa: E402
    optuna_stub.install()
    import bayesian_decision_tree  # noqa: E402
    import bayesian_decision_tree.base  # noqa: E402,F401
    import bayesian_decision_tree.classification  # noqa: E402,F401
    import bayesian_decision_tree.regression  # noqa: E402,F401
    import bayesian_decision_tree.hyperplane_optimization  # noqa: E402,F401
    import bayesian_decision_tree.utils  # noqa: E402,F401



class _ThreadingProxy:
    """What library modules see as `threading`: the real module with the lock constructors behind the seam."""
    Lock, RLock = SimLock, SimRLock

    def __getattr__(self, name):
        return getattr(threading, name)


for _m in [m for n, m in sorted(sys.modules.items()) if n.startswith(PKG_NAME)]:
    if getattr(_m, 'threading', None) is threading:
        _m.threading = _ThreadingProxy()

assert os.path.realpath(bayesian_decision_tree.__file__).startswith(PKG_DIR), bayesian_decision_tree.__file__

# ---- entropy seam -------------------------------------------------------------------------------
import random as _random  # noqa: E402


class Entropy:
    """What an unseeded generator would take from the operating system; simulated while `source` is set."""
    source = None
    taken = 0

    @classmethod
    def start(cls, seed):
        cls.source, cls.taken = _random.Random(seed), 0


def _entropy_seam():
    import secrets
    real_bits, real_urandom = secrets.randbits, os.urandom

    def randbits(n):
        if Entropy.source is None:
            return real_bits(n)
        Entropy.taken += 1
        return Entropy.source.getrandbits(n)

    def urandom(n):
        if Entropy.source is None:
            return real_urandom(n)
        Entropy.taken += 1
        return Entropy.source.getrandbits(8 * n).to_bytes(n, 'little')
    import numpy.random.bit_generator as bg
    if hasattr(bg, 'randbits'):
        bg.randbits = randbits
    secrets.randbits = randbits
    os.urandom = urandom
    _random._urandom = urandom
    init = _random.Random.seed

    def seed(self, a=None, version=2):
        if a is None and Entropy.source is not None and type(self) is _random.Random and self is not Entropy.source:
            a = randbits(256)
        return init(self, a, version)
    _random.Random.seed = seed


_entropy_seam()
