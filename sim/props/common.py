"""Pieces shared by the properties."""
import contextlib
import errno
import sys

from .. import env, gen, obs, simopt
from ..core import Discard, InjectedError, Violation

REAL_CORE = ['bayesian_decision_tree (all modules, /repo working tree)', 'numpy', 'scipy', 'pandas', 'CPython threads '
             '(one at a time, hand-over decided by the simulator)']
STUB_CORE = ['thread scheduler (seeded token passing at every bytecode of the package)', 'lock constructors of the '
             'package (contention is a scheduling decision)', 'clock functions']
ASSUME_CORE = ['Faults arrive where CPython 3.12 can deliver them: after calls, on function entry, at loop heads, and at '
               'arithmetic or container construction; not inside numpy or scipy C code.',
               'numpy and scipy are deterministic on one BLAS thread.', 'Runs sample; absence of violations is evidence, '
               'not proof.']


class Stream:
    """Progress output: fails with the given error from the k-th write on (None: never)."""
    encoding = 'utf-8'

    def __init__(self, k=None, err='epipe', once=False):
        self.k, self.err, self.n, self.fired, self.once = k, err, 0, 0, once

    def write(self, s):
        self.n += 1
        if self.k is not None and (self.n == self.k or self.n > self.k and not self.once):
            self.fired += 1
            if self.err == 'epipe':
                raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
            if self.err == 'enospc':
                raise OSError(errno.ENOSPC, 'No space left on device')
            if self.err == 'closed':
                raise ValueError('I/O operation on closed file')
            if self.err == 'encode':
                s.encode('ascii')
                raise UnicodeEncodeError('ascii', s, 0, 1, 'ordinal not in range')
            if self.err == 'interrupt':
                raise KeyboardInterrupt('while writing')
            raise InjectedError('stream failed')
        return len(s)

    def flush(self):
        pass


STREAM_ERRS = ['epipe', 'enospc', 'closed', 'interrupt', 'error']


@contextlib.contextmanager
def stdout(stream):
    old = sys.stdout
    sys.stdout = stream
    try:
        yield stream
    finally:
        sys.stdout = old


def fit(m, D, verbose=False, names=None):
    if verbose or names is not None:
        return m.fit(D.Xin, D.yin, verbose=verbose, feature_names=names)
    return m.fit(D.Xin, D.yin)


def fresh_obs(ctx, ms, D, Qs, opt=None):
    """What a brand-new estimator trained once on D answers; computed in a process of its own.
    Returns (observations per query set or None if training fails, exception, steps, points of the training)."""
    def body():
        m = gen.build_model(ms, opt=opt() if opt else None)
        r = ctx.do(lambda: fit(m, D))
        n = ctx.last.step, ctx.last.threads[0].points
        if r[0] == 'exc':
            return None, '{}: {}'.format(type(r[1]).__name__, str(r[1])[:300]), n
        return [obs.observe(m, ms['t'], Q) for Q in Qs], None, n
    o, e, (steps, points) = ctx.fork(body)
    return o, e, steps, points


def expect_fits(ctx, ms, D, Qs, opt=None):
    o, e, steps, points = fresh_obs(ctx, ms, D, Qs, opt)
    if o is None:
        raise Violation('fit-fails', 'training a brand-new {} on valid data raises {}'.format(ms['t'], e))
    return o, steps, points


def obs_all(m, t, Qs):
    return [obs.observe(m, t, Q) for Q in Qs]


def describe(a, b):
    """A short account of where two observation lists differ."""
    for i, (x, y) in enumerate(zip(a, b)):
        d = obs.diff(x, y)
        if d:
            k = d[0]
            return '{} (query set {}) answers {} instead of {}'.format(k, i, _s(y.get(k)), _s(x.get(k)))
    return 'no difference'


def _s(v):
    if v is None:
        return 'nothing'
    return v[1] if v[0] == 'exc' else obs._short(v[1])


def hyper_ok(ms, d):
    """Whether the optimizer supports d features: all of them do."""
    return d >= 1


def require(cond, why):
    if not cond:
        raise Discard(why)


__all__ = ['env', 'gen', 'obs', 'simopt', 'Discard', 'InjectedError', 'Violation', 'Stream', 'stdout', 'fit', 'fresh_obs',
           'expect_fits', 'obs_all', 'describe', 'hyper_ok', 'require', 'REAL_CORE', 'STUB_CORE', 'ASSUME_CORE',
           'STREAM_ERRS']
