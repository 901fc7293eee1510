"""Closing the system: binds the harness to the code under test and to its sources of randomness.

* puts the repository under test first on sys.path and verifies that `artemis` really comes from it,
* replaces numpy.random.default_rng *before* artemis is imported, so that every generator created by the
  library can be turned into an enumerated choice point (see Choices / ControlledGenerator).
"""
import os
import random
import sys
import warnings

sys.dont_write_bytecode = True
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, REPO)

import itertools
import math

import numpy as np

warnings.simplefilter("ignore")
np.seterr(all="ignore")

_real_default_rng = np.random.default_rng


class Choices:
    """One execution's stream of environment choices: replays `prefix`, then answers 0."""

    def __init__(self, prefix=(), family=0):
        self.family = family        # if not 0: draws too large to enumerate take one of so many outcomes
        self.prefix = list(prefix)
        self.taken = []
        self.arity = []
        self.uncontrolled = []      # generator methods used that are not enumerated

    def pick(self, n):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if not 0 <= c < n:
            raise RuntimeError("diverging replay: choice %d of %d at point %d" % (c, n, i))
        self.taken.append(c)
        self.arity.append(n)
        return c


def nth_permutation(n, k):
    pool, out = list(range(n)), []
    for i in range(n, 0, -1):
        f = math.factorial(i - 1)
        out.append(pool.pop(k // f))
        k %= f
    return out


def nth_arrangement(n, size, k):
    """k-th ordered selection of `size` out of n without replacement (0 = identity prefix)."""
    pool, out = list(range(n)), []
    for i in range(size):
        f = math.factorial(n - 1 - i) // math.factorial(n - size)
        out.append(pool.pop(k // f))
        k %= f
    return out


def strided(n, k):
    """The k-th of a family of permutations of n (0: the identity)."""
    step = 1 + 2 * k
    while math.gcd(step, n) > 1:
        step += 1
    return [(k * 7 + i * step) % n for i in range(n)]


class ControlledGenerator(np.random.Generator):
    """A real numpy Generator whose shuffling and sampling methods are enumerated choice points."""

    def __init__(self, source):
        super().__init__(np.random.PCG64(0))
        self.source = source

    def _perm(self, n):
        if n > 6 and self.source.family:
            return strided(n, self.source.pick(self.source.family))
        if n > 6:
            self.source.uncontrolled.append("permutation of %d" % n)
            return list(range(n))
        return nth_permutation(n, self.source.pick(math.factorial(n)))

    def permutation(self, x, axis=0):
        if isinstance(x, (int, np.integer)):
            return np.array(self._perm(int(x)), dtype=np.int64)
        arr = np.array(x)
        if axis != 0:
            self.source.uncontrolled.append("permutation axis")
            return super().permutation(x, axis=axis)
        return arr[self._perm(len(arr))]

    def shuffle(self, x, axis=0):
        if axis != 0:
            self.source.uncontrolled.append("shuffle axis")
            return super().shuffle(x, axis=axis)
        p = self._perm(len(x))
        if isinstance(x, np.ndarray):
            x[...] = x[p]
        else:
            vals = [x[i] for i in p]
            for i, v in enumerate(vals):
                x[i] = v

    def permuted(self, x, axis=None, out=None):
        arr = np.array(x)
        if arr.ndim != 1 or out is not None:
            self.source.uncontrolled.append("permuted nd")
            return super().permuted(x, axis=axis, out=out)
        return arr[self._perm(len(arr))]

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        pool = np.arange(a) if isinstance(a, (int, np.integer)) else np.array(a)
        if p is not None or axis != 0 or (size is not None and not isinstance(size, (int, np.integer))):
            self.source.uncontrolled.append("weighted choice")
            return super().choice(a, size=size, replace=replace, p=p, axis=axis, shuffle=shuffle)
        n = len(pool)
        if size is None:
            return pool[self.source.pick(n)]
        size = int(size)
        if replace:
            return pool[[self.source.pick(n) for _ in range(size)]]
        if size > n:
            raise ValueError("Cannot take a larger sample than population when replace is False")
        total = math.factorial(n) // math.factorial(n - size)
        if total > 5040 and self.source.family:
            return pool[strided(n, self.source.pick(self.source.family))[:size]]
        if total > 5040:
            self.source.uncontrolled.append("choice %d of %d" % (size, n))
            return super().choice(a, size=size, replace=False)
        return pool[nth_arrangement(n, size, self.source.pick(total))]


def _uncontrolled(name):
    def call(self, *a, **k):
        self.source.uncontrolled.append(name)
        return getattr(_RealGenerator, name)(self, *a, **k)
    return call


for _n in ("random", "integers", "normal", "standard_normal", "uniform", "exponential", "bytes", "beta",
           "binomial", "poisson", "gamma", "dirichlet", "multinomial"):
    setattr(ControlledGenerator, _n, _uncontrolled(_n))


class _Seam:
    source = None          # active Choices: every generator the library creates draws from it
    unseeded = None        # active environment answer for unseeded generators (int) or None


def _default_rng(seed=None):
    if isinstance(seed, np.random.Generator):
        return seed
    if _Seam.source is not None:
        return ControlledGenerator(_Seam.source)
    if seed is None and _Seam.unseeded is not None:
        _Seam.unseeded += 7919
        return _real_default_rng(_Seam.unseeded)
    return _real_default_rng(seed)


np.random.default_rng = _default_rng
_RealGenerator = np.random.Generator


class _GeneratorMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _RealGenerator)


class _GeneratorSeam(_RealGenerator, metaclass=_GeneratorMeta):
    """np.random.Generator(bit_generator), the other way to make a generator, goes through the seam as well."""

    def __new__(cls, *a, **k):
        return ControlledGenerator(_Seam.source) if _Seam.source is not None else _RealGenerator(*a, **k)


np.random.Generator = _GeneratorSeam


class controlled:
    """with controlled(choices): every generator created inside is enumerated."""

    def __init__(self, source):
        self.source = source

    def __enter__(self):
        _Seam.source = self.source
        return self.source

    def __exit__(self, *a):
        _Seam.source = None


def explore(fn, limit=None):
    """Runs fn() under every sequence of generator outcomes. Yields (choices, result).

    Depth-first over choice prefixes; every execution runs to completion; replayed prefixes must not diverge.
    """
    stack, runs = [()], 0
    while stack:
        prefix = stack.pop()
        src = Choices(prefix)
        with controlled(src):
            res = fn()
        if len(src.taken) < len(prefix):
            raise RuntimeError("diverging replay: prefix %r not consumed" % (prefix,))
        runs += 1
        yield src, res
        if limit is not None and runs >= limit:
            return
        for i in range(len(src.taken) - 1, len(prefix) - 1, -1):
            for alt in range(src.arity[i] - 1, 0, -1):
                stack.append(tuple(src.taken[:i]) + (alt,))


def explore_deviations(fn, bound, family=0):
    """Like explore, for longer executions: every execution in which at most `bound` choices differ from outcome 0."""
    stack = [((), 0)]
    while stack:
        prefix, used = stack.pop()
        src = Choices(prefix, family)
        with controlled(src):
            res = fn()
        if len(src.taken) < len(prefix):
            raise RuntimeError("diverging replay: prefix %r not consumed" % (prefix,))
        yield src, res
        if used < bound:
            for i in range(len(src.taken) - 1, len(prefix) - 1, -1):
                for alt in range(src.arity[i] - 1, 0, -1):
                    stack.append((tuple(src.taken[:i]) + (alt,), used + 1))


def quiet_random(seed):
    random.seed(seed)
    np.random.seed(seed % (2 ** 31))
    _Seam.unseeded = 1000003 * (seed + 1)


import matplotlib

matplotlib.use("Agg")
import pandas as pd
import artemis

_where = os.path.dirname(os.path.abspath(artemis.__file__))
if os.path.commonpath([_where, REPO]) != REPO:
    sys.stderr.write("artemis is imported from %s, not from %s\n" % (_where, REPO))
    raise SystemExit(2)

from artemis._utilities.pd_calculator import PartialDependenceCalculator
from artemis._utilities.exceptions import (
    VisualizationNotSupportedException, MethodNotSupportedException, MethodNotFittedException,
    ModelNotSupportedException, MetricNotSupportedException, FeatureImportanceWithoutInteractionException)
from artemis._utilities.performance_metrics import RMSE, MSE, Accuracy, Metric
from artemis._utilities._handler import GBTreesHandler
from artemis.interactions_methods.model_agnostic import FriedmanHStatisticMethod, GreenwellMethod, SejongOhMethod
from artemis.interactions_methods.model_specific import SplitScoreMethod, ConditionalMinimalDepthMethod
from artemis.importance_methods.model_agnostic import PermutationImportance, PartialDependenceBasedImportance
from artemis.importance_methods.model_specific import MinimalDepthImportance, SplitScoreImportance
from artemis.additivity import AdditivityMeter
from artemis.comparison import FeatureInteractionMethodComparator
from artemis.visualizer import PartialDependenceVisualizer
