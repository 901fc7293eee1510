"""Alphabets, table models and the reference model (exact arithmetic) for the model-agnostic explanations."""
import itertools
import math
from fractions import Fraction

import numpy as np
import pandas as pd

from .core import Violation, expect

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103,
          107, 109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211, 223, 227,
          229, 233, 239, 241, 251, 257, 263, 269, 271, 277, 281, 283, 293, 307, 311, 313, 317, 331, 337, 347, 349]


def generic(i):
    """A fixed, structure-free sequence of distinct integers (no additive or multiplicative pattern)."""
    return PRIMES[i] * PRIMES[(i * 7 + 3) % len(PRIMES)] % 997 - 400


def grid(domains):
    return list(itertools.product(*domains))


def multisets(points, sizes):
    for k in sizes:
        for c in itertools.combinations_with_replacement(points, k):
            yield c


def make_index(kind, n):
    if kind == "range":
        return None
    if kind == "shuffled":
        return [(7 * i + 3) % (n + 11) for i in range(n)][::-1] if n < 7 else list(range(n))[::-1]
    if kind == "dup":
        return [0] * n
    if kind == "dup2":
        return [i // 2 for i in range(n)]
    if kind == "str":
        return ["r%d" % ((i * 5 + 2) % 97) for i in range(n)]
    if kind == "offset":
        return [i + 1 for i in range(n)]
    if kind == "reversed":
        return list(range(n))[::-1]
    if kind == "float":
        return [0.5 * i for i in range(n)]
    if kind == "multi":
        return pd.MultiIndex.from_tuples([(i % 2, i) for i in range(n)])
    raise KeyError(kind)


def frame(cols, rows, index="range"):
    data = {c: [r[j] for r in rows] for j, c in enumerate(cols)}
    return pd.DataFrame(data, columns=list(cols), index=make_index(index, len(rows)))


class ContractError(Exception):
    """The model was asked something no model of these data could be asked."""


class Boom(Exception):
    """Injected failure."""


class TableModel:
    """A model given by its table. Checks the frames it is asked about and records the queries."""

    def __init__(self, cols, table, proba=None, fail=(), exc=Boom, by_name=False):
        self.cols = list(cols)
        self.table = table
        self.calls = 0
        self.rows = 0
        self.fail = set(fail)
        self.exc = exc
        self.by_name = by_name
        self.log = None

    def _answer(self, X, table):
        if not isinstance(X, pd.DataFrame):
            raise ContractError("asked to predict a %s" % type(X).__name__)
        if self.by_name:
            if sorted(X.columns) != sorted(self.cols):
                raise ContractError("asked to predict columns %r instead of %r" % (list(X.columns), self.cols))
        elif list(X.columns) != self.cols:
            raise ContractError("asked to predict columns %r instead of %r" % (list(X.columns), self.cols))
        k = self.calls
        self.calls += 1
        if k in self.fail:
            raise self.exc("injected failure at prediction call %d" % k)
        self.rows += len(X)
        vals = list(zip(*[X[c].tolist() for c in self.cols]))
        if self.log is not None:
            self.log.append(tuple(vals))
        try:
            return np.array([table[v] for v in vals], dtype=float)
        except KeyError as e:
            raise ContractError("asked to predict a row %r that combines no observed values" % (e.args[0],))

    def predict(self, X):
        return self._answer(X, self.table)


def make_table(domains, values):
    return {g: v for g, v in zip(grid(domains), values)}


def is_numeric(values):
    return all(isinstance(v, (int, float, bool, np.number)) for v in values)


class Ref:
    """Reference model: partial dependence and everything defined from it, in exact rational arithmetic."""

    def __init__(self, cols, rows, table, categorical=()):
        self.categorical = set(categorical)     # columns that are no numbers to pandas, whatever they hold
        self.cols = list(cols)
        self.rows = [tuple(r) for r in rows]
        self.f = {k: Fraction(v) for k, v in table.items()}
        self.n = len(rows)
        self.pos = {c: j for j, c in enumerate(self.cols)}
        self._s, self._p, self._m = {}, {}, {}

    def values(self, c):
        return sorted({r[self.pos[c]] for r in self.rows})

    def mean_at(self, change):
        tot = Fraction(0)
        for r in self.rows:
            q = list(r)
            for c, v in change.items():
                q[self.pos[c]] = v
            tot += self.f[tuple(q)]
        return tot / self.n

    def pd1(self, c, v):
        k = (c, v)
        if k not in self._s:
            self._s[k] = self.mean_at({c: v})
        return self._s[k]

    def pd2(self, c1, v1, c2, v2):
        k = (c1, v1, c2, v2)
        if k not in self._p:
            self._p[k] = self._p[(c2, v2, c1, v1)] = self.mean_at({c1: v1, c2: v2})
        return self._p[k]

    def pdm(self, c, i):
        k = (c, i)
        if k not in self._m:
            self._m[k] = self.mean_at({d: self.rows[i][self.pos[d]] for d in self.cols if d != c})
        return self._m[k]

    def preds(self):
        return [self.f[r] for r in self.rows]

    @staticmethod
    def _center(xs):
        m = sum(xs, Fraction(0)) / len(xs)
        return [x - m for x in xs]

    def _h(self, joint, a, b, normalized):
        j, a, b = self._center(joint), self._center(a), self._center(b)
        num = sum((x - y - z) ** 2 for x, y, z in zip(j, a, b))
        if not normalized:
            return math.sqrt(num / len(j))
        den = sum(x * x for x in j)
        return float(num / den) if den else 0.0

    def h_pair(self, c1, c2, normalized=True):
        i, j = self.pos[c1], self.pos[c2]
        return self._h([self.pd2(c1, r[i], c2, r[j]) for r in self.rows], [self.pd1(c1, r[i]) for r in self.rows],
                       [self.pd1(c2, r[j]) for r in self.rows], normalized)

    def h_ova(self, c, normalized=True):
        i = self.pos[c]
        return self._h(self.preds(), [self.pd1(c, r[i]) for r in self.rows],
                       [self.pdm(c, k) for k in range(self.n)], normalized)

    @staticmethod
    def var(xs, ddof):
        if len(xs) - ddof <= 0:
            return Fraction(0)
        m = sum(xs, Fraction(0)) / len(xs)
        return sum((x - m) ** 2 for x in xs) / (len(xs) - ddof)

    def numeric(self, c):
        return c not in self.categorical and is_numeric(self.values(c))

    def importance(self, c):
        prof = [self.pd1(c, v) for v in self.values(c)]
        if self.numeric(c):
            return math.sqrt(self.var(prof, 0))
        return float((max(prof) - min(prof)) / 4)

    def _cond(self, prof, numeric):
        return math.sqrt(self.var(prof, 1)) if numeric else float((max(prof) - min(prof)) / 4)

    def greenwell(self, c1, c2):
        v1, v2 = self.values(c1), self.values(c2)
        over1 = [self._cond([self.pd2(c1, x, c2, y) for y in v2], self.numeric(c2)) for x in v1]
        over2 = [self._cond([self.pd2(c1, x, c2, y) for x in v1], self.numeric(c1)) for y in v2]
        return (fstd(over1) + fstd(over2)) / 2

    def additivity(self):
        p = self.preds()
        m = sum(p, Fraction(0)) / self.n
        den = sum((x - m) ** 2 for x in p)
        if den == 0:
            return None
        num = Fraction(0)
        for r, x in zip(self.rows, p):
            num += (x - m - sum(self.pd1(c, r[j]) - m for j, c in enumerate(self.cols))) ** 2
        return float(1 - num / den)

    def additivity_rows(self):
        p = self.preds()
        m = sum(p, Fraction(0)) / self.n
        return [[float(self.pd1(c, r[j]) - m) for j, c in enumerate(self.cols)] + [float(x - m)]
                for r, x in zip(self.rows, p)]


def fstd(xs):
    if len(xs) < 2:
        return 0.0
    m = math.fsum(xs) / len(xs)
    return math.sqrt(max(0.0, math.fsum((x - m) ** 2 for x in xs) / (len(xs) - 1)))


def close(a, b, tol=1e-9):
    if a is None or b is None:
        return a is b
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# greenwell involves sqrt of differences: a vanishing spread of equal conditional importances can surface as ~1e-8
def close_std(a, b):
    return close(a, b, 1e-7)


def pair_table(df, c1="Feature 1", c2="Feature 2", col=None):
    """{frozenset pair: value}; fails on repeated or self pairs."""
    col = col or [c for c in df.columns if c not in (c1, c2)][0]
    out = {}
    for a, b, v in zip(df[c1].tolist(), df[c2].tolist(), df[col].tolist()):
        expect(a != b, "pair (%s, %s) with itself in the result table", a, b)
        k = frozenset((a, b))
        expect(k not in out, "pair %s is listed twice", sorted(k))
        out[k] = v
    return out


def directed_table(df, c1, c2, col):
    out = {}
    for a, b, v in zip(df[c1].tolist(), df[c2].tolist(), df[col].tolist()):
        expect((a, b) not in out, "ordered pair (%s, %s) is listed twice", a, b)
        out[(a, b)] = v
    return out


def feature_table(df, col="Importance", name="Feature"):
    out = {}
    for a, v in zip(df[name].tolist(), df[col].tolist()):
        expect(a not in out, "feature %s is listed twice", a)
        out[a] = v
    return out


def same_table(got, want, what, tol=1e-9):
    expect(set(got) == set(want), "%s: entries %s instead of %s", what, _keys(got), _keys(want))
    for k in want:
        expect(close(got[k], want[k], tol), "%s: %s is %r, by definition %r", what, _key(k), got[k], want[k])


def _key(k):
    return sorted(k) if isinstance(k, frozenset) else k


def _keys(d):
    return sorted([_key(k) for k in d], key=repr)


def ordered(values, ascending, what, tol=1e-9):
    for x, y in zip(values, values[1:]):
        if isinstance(x, float) and math.isnan(x) or isinstance(y, float) and math.isnan(y):
            continue
        ok = (x <= y + tol * max(1, abs(x), abs(y))) if ascending else (x >= y - tol * max(1, abs(x), abs(y)))
        expect(ok, "%s not ordered strongest first: %r", what, values)


def all_pairs(features):
    return [frozenset(p) for p in itertools.combinations(features, 2)]
