"""Optimizers the simulator controls: scripted proposals with faults, and recorders around built-in ones."""
import numpy as np

from . import env
from .core import InjectedError
from bayesian_decision_tree.hyperplane_optimization import HyperplaneOptimizer


class SimOptimizer(HyperplaneOptimizer):
    """Proposes a scripted sequence of directions: seeded random ones, duplicates, reversed and rescaled ones,
    axis-parallel ones, zero and NaN vectors, delivered in any order, or none at all.

    spec: o='SIM', seed, n (fresh directions), cube (search space), dup (duplicate share), degen (share of degenerate
    vectors), scale, stop (deliver at most so many), order ('fwd' | 'rev' | 'shuf'), fail (raise at the k-th proposal of
    the solve numbered fail_solve), swallow (continue after the failing evaluation)
    """
    def __init__(self, spec):
        super().__init__(search_space_is_unit_hypercube=bool(spec.get('cube')))
        self.spec = spec

    def solve(self, f):
        s = self.spec
        d = f.X.shape[1]
        for v in self.proposals(d, f):
            f.compute(v)
        if s.get('fail_always'):
            raise InjectedError('optimizer failed')

    def proposals(self, d, f=None):
        s = self.spec
        rs = np.random.RandomState(s['seed'])
        m = d - 1 if s.get('cube') else d
        out = []
        for _ in range(s['n']):
            r = rs.uniform()
            if s.get('cube'):
                v = rs.uniform(0, 1, m)
                if r < s.get('degen', 0):
                    v = rs.randint(0, 2, m).astype(float)
            else:
                v = rs.normal(size=m) * 10.0 ** rs.randint(-s.get('scale', 0), s.get('scale', 0) + 1)
                if r < s.get('degen', 0):
                    v = [np.zeros(m), np.full(m, np.nan), np.eye(m)[rs.randint(0, m)], -np.eye(m)[rs.randint(0, m)],
                         np.where(rs.uniform(size=m) < 0.5, np.nan, v)][rs.randint(0, 5)].copy()
            out.append(v)
            while rs.uniform() < s.get('dup', 0) and len(out) < 100:
                w = out[rs.randint(0, len(out))].copy()
                if not s.get('cube') and rs.uniform() < 0.5:
                    w = w * [-1.0, 2.0, 1e-3][rs.randint(0, 3)]
                out.append(w)
        if s.get('order') == 'rev':
            out = out[::-1]
        elif s.get('order') == 'shuf':
            out = [out[i] for i in rs.permutation(len(out))]
        if s.get('stop') is not None:
            out = out[:s['stop']]
        return out


def sim_opt_spec(rng, d):
    s = {'o': 'SIM', 'seed': rng.randrange(1 << 20), 'n': rng.choice([0, 1, 2, 4, 8, 16]),
         'cube': d > 1 and rng.random() < 0.5, 'dup': rng.choice([0, 0, 0.3, 0.6]),
         'degen': rng.choice([0, 0.1, 0.4]), 'scale': rng.choice([0, 0, 3, 8]), 'order': rng.choice(['fwd', 'rev', 'shuf'])}
    if rng.random() < 0.15:
        s['stop'] = rng.choice([0, 1, 3])
    return s


class Recorder(HyperplaneOptimizer):
    """Wraps an optimizer and records, per node, every proposal and the value the library returned for it."""
    def __init__(self, inner):
        super().__init__(search_space_is_unit_hypercube=inner.search_space_is_unit_hypercube)
        self.inner = inner
        self.nodes = []

    def solve(self, f):
        rec = {'X': f.X.copy(), 'y': np.array(f.y), 'evals': [], 'f': f}
        self.nodes.append(rec)
        self.inner.solve(_Spy(f, rec))


class _Spy:
    def __init__(self, f, rec):
        self._f = f
        self._rec = rec

    def compute(self, v):
        p = np.array(v, dtype=float, copy=True)
        r = self._f.compute(v)
        self._rec['evals'].append((p, float(r)))
        return r

    def __getattr__(self, name):
        return getattr(self._f, name)


class FailingOptimizer(HyperplaneOptimizer):
    """Wraps an optimizer; the k-th evaluation over its lifetime raises instead of (or after) being carried out."""
    def __init__(self, inner, k, after=False, exc=InjectedError):
        super().__init__(search_space_is_unit_hypercube=inner.search_space_is_unit_hypercube)
        self.inner, self.k, self.after, self.exc = inner, k, after, exc
        self.count = 0
        self.fired = 0

    def solve(self, f):
        self.inner.solve(_Fail(f, self))


class _Fail:
    def __init__(self, f, o):
        self._f, self._o = f, o

    def compute(self, v):
        o = self._o
        o.count += 1
        if o.count == o.k:
            o.fired += 1
            if o.after:
                self._f.compute(v)
            raise o.exc('evaluation failed')
        return self._f.compute(v)

    def __getattr__(self, name):
        return getattr(self._f, name)


assert env
