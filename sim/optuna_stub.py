"""A stand-in for the optuna package, which is not installed here: the part OptunaOptimizer uses, as plain seeded random
search.  A sampler without a seed draws from the operating system's entropy, as the real one does."""
import os
import sys
import types

import numpy as np


class TPESampler:
    def __init__(self, seed=None):
        self.rng = np.random.RandomState(int.from_bytes(os.urandom(4), 'little') if seed is None else seed)


class Trial:
    def __init__(self, study, number):
        self.study, self.number, self.params = study, number, {}

    def suggest_uniform(self, name, low, high):
        if name not in self.params:
            # like an adaptive sampler: half of the later trials stay near the best one so far
            rng, best = self.study.sampler.rng, self.study.best
            v = rng.uniform(low, high)
            if best is not None and self.number % 2 and name in best.params:
                v = min(high, max(low, best.params[name] + 0.2 * (high - low) * (rng.uniform() - 0.5)))
            self.params[name] = float(v)
        return self.params[name]

    def suggest_float(self, name, low, high, **kw):
        return self.suggest_uniform(name, low, high)


class Study:
    def __init__(self, direction, sampler):
        self.sign = {'minimize': 1, 'maximize': -1}[direction]
        self.sampler = sampler if sampler is not None else TPESampler()
        self.best, self.best_value = None, None

    def optimize(self, func, n_trials=None, **kw):
        for i in range(n_trials):
            t = Trial(self, i)
            v = func(t)
            if self.best is None or self.sign * v < self.sign * self.best_value:
                self.best, self.best_value = t, v


def create_study(direction='minimize', sampler=None, **kw):
    return Study(direction, sampler)


def install():
    if 'optuna' in sys.modules:
        return
    m, lg, sm = types.ModuleType('optuna'), types.ModuleType('optuna.logging'), types.ModuleType('optuna.samplers')
    m.create_study, m.logging, m.samplers, m.Trial = create_study, lg, sm, Trial
    lg.set_verbosity = lambda level: None
    sm.TPESampler = TPESampler
    sys.modules.update({'optuna': m, 'optuna.logging': lg, 'optuna.samplers': sm})
