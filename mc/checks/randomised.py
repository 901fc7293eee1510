"""C09, C10: exact outcome distribution over every outcome of the random generator.
C17: every possible sample.  C18: all interleavings of equally seeded objects."""
import itertools
import json
import math
import os
import random
import subprocess
import sys
from collections import Counter, defaultdict
from fractions import Fraction

import numpy as np
import pandas as pd

from .. import env
from ..core import Violation, expect
from ..domain import (Ref, TableModel, all_pairs, close, feature_table, frame, generic, grid, make_index, make_table,
                      pair_table, same_table)
from .formulas import DOM, NAMES, shape_values, spread


class MaxErr(env.Metric):
    """A user-defined regression metric (order-insensitive, not a mean)."""

    def __init__(self):
        super().__init__("regression")

    def calculate(self, y_true, y_hat):
        return float(np.max(np.abs(np.asarray(y_true) - np.asarray(y_hat))))


class HitCount(env.Metric):
    """A user-defined classification metric (larger is better)."""

    def __init__(self):
        super().__init__("classification")

    def calculate(self, y_true, y_hat):
        return float(np.sum(np.asarray(y_true) == np.asarray(y_hat)))


def score(metric, y, p):
    d = [a - b for a, b in zip(y, p)]
    if metric == "mse":
        return float(sum(x * x for x in d)) / len(y)
    if metric == "rmse":
        return math.sqrt(sum(x * x for x in d) / len(y))
    if metric == "acc":
        return sum(x == 0 for x in d) / len(y)
    if metric == "max":
        return float(max(abs(x) for x in d))
    return float(sum(x == 0 for x in d))


METRICS = {"mse": env.MSE, "rmse": env.RMSE, "acc": env.Accuracy, "max": MaxErr, "hits": HitCount}
SIGN = {"mse": 1, "rmse": 1, "max": 1, "acc": -1, "hits": -1}


def make_y(y, kind, xkind):
    if kind == "array":
        return np.array(y)
    if kind == "same":
        return pd.Series(y, index=make_index(xkind, len(y)))
    return pd.Series(y, index=make_index(kind, len(y)))


def permuted(rows, cols_idx, p):
    return [tuple(rows[p[i]][j] if j in cols_idx else r[j] for j in range(len(r))) for i, r in enumerate(rows)]


def R(x):
    return round(float(x), 7) + 0.0


FAMILY = 4          # permutations tried of columns of more than 6 rows


def loss_dist(rows, table, y, metric, cols_idx):
    """[loss for every permutation] of the given columns permuted together."""
    base = score(metric, y, [table[r] for r in rows])
    out = []
    n = len(rows)
    if n > 6:       # only the permutations of the enumerated family, applied in either direction
        perms = [q for k in range(FAMILY) for p in [env.strided(n, k)] for q in (p, [p.index(i) for i in range(n)])]
    else:
        perms = itertools.permutations(range(n))
    for p in perms:
        out.append(SIGN[metric] * (score(metric, y, [table[r] for r in permuted(rows, cols_idx, p)]) - base))
    return out


def mean_dist(single, repeats):
    """Distribution of the mean of `repeats` independent draws from the list `single`: {value: probability}."""
    d = Counter()
    for combo in itertools.product(single, repeat=repeats):
        d[R(math.fsum(combo) / repeats)] += 1
    tot = sum(d.values())
    return {k: Fraction(v, tot) for k, v in d.items()}


def product_dist(dists):
    out = {(): Fraction(1)}
    for d in dists:
        out = {k + (v,): p * q for k, p in out.items() for v, q in d.items()}
    return out


def compare_dist(got, want, what, partial):
    for k in got:
        expect(k in want, "%s: %r is no possible outcome (possible: %r)", what, k, sorted(want)[:6])
    if partial:
        return
    for k in want:
        expect(got.get(k, 0) == want[k], "%s: outcome %r has probability %s, by definition %s (of %d outcomes)", what, k,
               got.get(k, 0), want[k], len(want))


def dev_cases(quick, pairs):
    """("dev", features, rows, shape, metric, repeats, selection, deviation bound)"""
    out = []
    for nf, n, rep, b in ((6, 2, 1, 2), (7, 3, 2, 1), (2, 2, 10, 2), (3, 5, 1, 1)):
        for metric in METRICS:
            for sel in (None, "reversed"):
                if pairs and (nf == 6 or n == 5 or (nf == 7 and metric not in ("rmse", "acc"))):
                    if quick or n == 5:
                        continue
                out.append(("dev", nf, n, ("gen", "ties")[sel is None and n != 2], metric, rep, sel, 1 if pairs and nf > 2 else b))
    # many repeats, many rows
    for metric in METRICS:
        out.append(("dev", 2, 2, "gen", metric, 36, None, 1))
        for nf, n in ((2, 60), (3, 25)) if pairs else ((2, 110), (3, 25), (3, 60)):
            out.append(("dev", nf, n, "gen", metric, 2, "reversed" if n == 25 else None, 1))
    out.append(("dev", 2, 2, "gen", "rmse", 51 if pairs else 105, None, 1))
    return out


def dev_world(case):
    _, nf, n, shape, metric, rep, sel, bound = case
    g = grid([(0, 1)] * nf)
    vals = shape_values(shape, g)
    if metric in ("acc", "hits"):
        vals = [int(v) % 2 for v in vals]
    table = dict(zip(g, vals))
    rows = [g[i] for i in spread(n, len(g))] if n <= 6 else [g[(i * i + i // 4 + i // 7) % len(g)] for i in range(n)]
    y = [table[r] for r in rows]
    y[0] = 1 - y[0]
    cols = NAMES[:nf]
    names = list(cols)[::-1] if sel else list(cols)
    return cols, rows, table, y, names, names if sel else None


def support(single, rep):
    """All means of `rep` values out of `single`, sorted; of many repeats those with at most two values other than 0."""
    vals = sorted(set(single))
    if rep > 10 or (rep > 2 and len(vals) > 8):
        vals = set(vals) | {0.0}
        return sorted({R((a + b) / rep) for a in vals for b in vals})
    return sorted({R(math.fsum(c) / rep) for c in itertools.combinations_with_replacement(vals, rep)})


def in_support(v, sup):
    import bisect
    i = bisect.bisect_left(sup, v)
    return any(0 <= j < len(sup) and abs(sup[j] - v) <= 1e-6 * max(1.0, abs(v)) for j in (i - 1, i))


def run_deviations(case, ctx, once, sup, restricted):
    """Every execution with a bounded number of non-identity draws: every entry possible, at most one entry moved per draw."""
    n = 0
    for src, res in env.explore_deviations(once, case[-1], FAMILY):
        ctx.step()
        n += 1
        if src.uncontrolled and (restricted or case[2] > 6 or case[5] > 10):
            ctx.count("uncontrolled")
            break
        expect(set(res) == set(sup), "entries %r instead of %r", sorted(map(str, res)), sorted(map(str, sup)))
        for k, v in res.items():
            expect(in_support(R(v), sup[k]), "%s is %r, which no outcome of the permutations gives (possible: %r)", k, v,
                   sup[k][:12])
        if src.uncontrolled:
            ctx.count("uncontrolled")
            break
        moved = [k for k, v in res.items() if abs(v) > 1e-9]
        devs = sum(1 for c in src.taken if c)
        expect(len(moved) <= devs, "%d draws are not the identity, but %r are not zero", devs, moved)
        ctx.state((case, tuple(src.taken)))
        if moved:
            ctx.nt((case, tuple(src.taken)))
    ctx.trace(n)
    ctx.peak("outcomes_per_case", n)
    ctx.sample = {"executions": n}


class C09:
    id = "C09"
    rule = ("a case is (data, model table, target, metric, repeats, features, labels); all random outcomes of the case are "
            "executed; non-trivial: more than one distinct outcome is observed, by distinct case")
    assumptions = ["the generator's permutation/shuffle/choice primitives are uniform (numpy); a primitive outside the "
                   "enumerated ones restricts the case to a support check and is counted as uncontrolled"]
    chunk = 12

    def bound(self, tier):
        return ("all generator outcomes: 2 rows x repeats 1-3, 3 rows x repeats 1-2, 4 rows x 1 repeat (thorough: 3x3 "
                "features, 4 rows x 2 features); 5 metrics; all 0/1 models of two binary features and generic models; beyond: 2-7 "
                "features, up to 5 rows, up to 10 repeats, all outcomes with at most 1-2 draws other than the identity; 25-110 rows (4 permutations "
                "per draw) and 36-105 repeats, all outcomes with one draw other than the identity")

    def cases(self, tier):
        out = []
        quick = tier == "quick"
        # 2 rows: all 0/1 tables and targets
        for vals in itertools.product((0, 1), repeat=4):
            for y in ((0, 1), (1, 1), (1, 0)):
                for metric in ("mse", "acc"):
                    out.append((("i2", "i2"), (0, 3), vals, y, "array", "range", metric, 1, None))
        gens = [tuple(generic(i + s) for i in range(9)) for s in (0, 13, 29, 44)]
        for metric in METRICS:
            for rep in (1, 2, 3):
                for yk, xk in (("array", "dup"), ("same", "str"), ("offset", "range"), ("dup", "shuffled")):
                    for gi, gv in enumerate(gens[:2 if quick else 4]):
                        vals = gv[:4] if metric in ("mse", "rmse", "max") else tuple(v % 2 for v in gv[:4])
                        out.append((("i2", "s2"), (1, 2), vals, (1, 0), yk, xk, metric, rep, None))
        # 3 rows, 1 repeat
        for metric in METRICS:
            for rows in ((0, 3, 1), (2, 1, 1), (0, 1, 2), (3, 3, 0)):
                for yk, xk in (("array", "range"), ("reversed", "dup"), ("same", "shuffled")):
                    for feats in (None, (1, 0), (1,)):
                        for s in range(1 if quick else 4):
                            vals = gens[s][:4] if metric in ("mse", "rmse", "max") else tuple(
                                v % 2 for v in gens[s][2:6])
                            out.append((("i2", "i2"), rows, vals, (1, 0, 3) if metric != "acc" else (1, 0, 1), yk, xk,
                                        metric, 1, feats))
        # three features, feature subsets
        for metric in ("mse", "acc"):
            for feats in (None, (2, 0), (1,), (2, 1, 0)):
                for rows in ((0, 7), (1, 6), (5, 2)):
                    vals = tuple(generic(i) for i in range(8)) if metric == "mse" else (0, 1, 1, 0, 1, 0, 0, 0)
                    out.append((("i2", "i2", "i2"), rows, vals, (1, 0), "dup", "str", metric, 2 if feats else 1, feats))
        # 3 rows, 2 repeats: 1296 outcomes each
        for metric, vals in (("mse", gens[0][:4]), ("acc", (0, 1, 1, 0)), ("rmse", gens[1][:4])):
            out.append((("i2", "i2"), (0, 3, 1), vals, (1, 0, 1), "offset", "dup", metric, 2, None))
        # 4 rows
        out.append((("i2", "i2"), (0, 3, 1, 2), gens[0][:4], (1, 0, 1, 2), "offset", "range", "mse", 1, None))
        out.append((("i3", "s2"), (0, 3, 5, 2), (0, 1, 1, 0, 0, 1), (1, 0, 1, 0), "reversed", "str", "acc", 1, None))
        if not quick:
            for s in range(6):
                vals = tuple(generic(i + 5 * s) for i in range(6))
                out.append((("i3", "s2"), (0, 3, 5, 2), vals, (1, 0, 1, 2), "dup", "range", "rmse", 1, None))
                out.append((("i2", "i2"), (0, 3, 1), vals[:4], (1, 0, 1), "offset", "dup", "rmse", 2, (1, 0)))
                out.append((("i2", "i2", "i2"), (0, 3, 5), tuple(generic(i + 3 * s) for i in range(8)), (3, 0, 1),
                            "array", "dup", "mse", 1, None))
        return out + dev_cases(quick, False)

    def dev(self, case, ctx):
        cols, rows, table, y, names, features = dev_world(case)
        X, model = frame(cols, rows, "dup"), TableModel(cols, table)
        metric, rep = case[4], case[5]

        def once():
            obj = env.PermutationImportance(METRICS[metric](), random_state=3)
            return feature_table(obj.importance(model, X, np.array(y), n_repeat=rep, features=features))
        run_deviations(case, ctx, once, {f: support(loss_dist(rows, table, y, metric, {cols.index(f)}), rep) for f in names}, False)

    def heavy(self, case):
        if case[0] == "dev":
            return True
        return len(case[1]) == 4 or (len(case[1]) == 3 and case[7] == 2)

    def run(self, case, ctx):
        if case[0] == "dev":
            return self.dev(case, ctx)
        t, rows, vals, y, yk, xk, metric, rep, feats = case
        g = grid([DOM[x] for x in t])
        cols = NAMES[:len(t)]
        rws = [g[r] for r in rows]
        table = dict(zip(g, vals))
        X = frame(cols, rws, xk)
        yv = make_y(y, yk, xk)
        features = None if feats is None else [cols[i] for i in feats]
        names = features or list(cols)
        model = TableModel(cols, table)
        got = defaultdict(Fraction)
        partial = False
        n = 0

        def once():
            obj = env.PermutationImportance(METRICS[metric](), random_state=3)
            return feature_table(obj.importance(model, X, yv, n_repeat=rep, features=features))

        for src, res in env.explore(once):
            ctx.step()
            n += 1
            expect(set(res) == set(names), "importance lists %s instead of %s", sorted(res), sorted(names))
            w = Fraction(1)
            for a in src.arity:
                w /= a
            got[tuple(R(res[f]) for f in names)] += w
            if src.uncontrolled:
                partial = True
                ctx.count("uncontrolled")
                break
        want = product_dist([mean_dist(loss_dist(rws, table, y, metric, {cols.index(f)}), rep) for f in names])
        compare_dist(dict(got), want, "permutation importance (%s)" % (", ".join(names)), partial)
        ctx.trace(n)
        ctx.peak("outcomes_per_case", n)
        for k in got:
            ctx.state((case, k))
        if len(got) > 1:
            ctx.nt(case)
        ctx.sample = {"random_outcomes_executed": n, "distinct_results": len(got)}


class C10:
    id = "C10"
    rule = C09.rule
    assumptions = C09.assumptions
    chunk = 3

    def bound(self, tier):
        return ("all generator outcomes (joint permutation draws of every pair and of the importance): 2 rows x 2 features "
                "x repeats 1-2, 2 rows x 3 features x 1 repeat with 1-2 selected, 3 rows x 2 features x 1 repeat (7776 "
                "outcomes each); 5 metrics; beyond: 7 features and 10 repeats, 25 and 60 rows (4 permutations per draw), 36 and 51 repeats, all outcomes with one draw other than the identity" + ("" if tier == "quick" else "; 2 rows x 3 features (4096 outcomes)"))

    def cases(self, tier):
        quick = tier == "quick"
        out = []
        gens = [tuple(generic(i + s) for i in range(9)) for s in (0, 13, 29, 44)]
        for vals in itertools.product((0, 1), repeat=4):
            for y in ((0, 1), (1, 1)):
                for metric in ("mse", "acc"):
                    out.append((("i2", "i2"), (0, 3), vals, y, "array", "range", metric, 1, None))
        for metric in METRICS:
            for yk, xk in (("array", "dup"), ("same", "str"), ("offset", "range"), ("dup", "shuffled")):
                for gv in gens[:2 if quick else 4]:
                    vals = gv[:4] if metric in ("mse", "rmse", "max") else tuple(v % 2 for v in gv[:4])
                    out.append((("i2", "s2"), (1, 2), vals, (1, 0), yk, xk, metric, 1, None))
        for metric in ("mse", "acc"):
            for feats in ((2, 0), (0, 1), (2, 1)):
                for rows in ((0, 7), (5, 2)):
                    vals = tuple(generic(i) for i in range(8)) if metric == "mse" else (0, 1, 1, 0, 1, 0, 0, 0)
                    out.append((("i2", "i2", "i2"), rows, vals, (1, 0), "dup", "str", metric, 1, feats))
        for metric, vals in (("mse", gens[0][:4]), ("acc", (0, 1, 1, 0)), ("hits", (0, 1, 1, 1)), ("max", gens[2][:4])):
            out.append((("i2", "i2"), (0, 3), vals, (1, 0), "offset", "dup", metric, 2, None))
        big = [("mse", gens[0][:4], (0, 3, 1), (1, 0, 3)), ("rmse", gens[1][:4], (2, 1, 0), (-1, 0, 2)),
               ("acc", (0, 1, 1, 0), (0, 3, 1), (1, 0, 1)), ("hits", (0, 1, 0, 1), (3, 2, 0), (1, 1, 0))]
        if not quick:
            big += [("max", gens[i][:4], (0, 3, i % 3), (1, 0, 3)) for i in range(4)] + [
                ("rmse", gens[i][:4], (3, i % 3, 0), (5, 0, 3)) for i in range(4)]
        for metric, vals, rows, y in big:
            out.append((("i2", "i2"), rows, vals, y, "reversed", "range", metric, 1, None))
        if not quick:
            for s in range(3):
                out.append((("i2", "i2", "i2"), (0, 7), tuple(generic(i + s) for i in range(8)), (1, 0), "array", "range",
                            "mse", 1, None))
        return out + dev_cases(quick, True)

    case_timeout = 800

    def dev(self, case, ctx):
        cols, rows, table, y, names, features = dev_world(case)
        X, model = frame(cols, rows, "dup"), TableModel(cols, table)
        metric, rep = case[4], case[5]
        single = {f: loss_dist(rows, table, y, metric, {cols.index(f)}) for f in names}
        sup = {f: support(v, rep) for f, v in single.items()}
        for f, g in itertools.combinations(names, 2):
            joint = loss_dist(rows, table, y, metric, {cols.index(f), cols.index(g)})
            sup[frozenset((f, g))] = support({R(abs(c - a - b)) for a in set(single[f]) for b in set(single[g]) for c in set(joint)},
                                             rep) if rep < 3 else None
        if rep >= 3:            # at most one draw per entry deviates in these executions: all means of few non-zero values
            for k in [k for k, v in sup.items() if v is None]:
                f, g = sorted(k)
                joint = loss_dist(rows, table, y, metric, {cols.index(f), cols.index(g)})
                vals = {R(abs(c - a - b)) for a in set(single[f]) for b in set(single[g]) for c in set(joint)} | {0.0}
                sup[k] = sorted({R((a + b) / rep) for a in vals for b in vals})

        def once():
            m = env.SejongOhMethod(METRICS[metric](), random_state=3)
            m.fit(model, X, np.array(y), n_repeat=rep, features=features)
            return {**pair_table(m.ovo, col=m.method), **feature_table(m.feature_importance)}
        run_deviations(case, ctx, once, sup, rep >= 3)

    def heavy(self, case):
        if case[0] == "dev":
            return True
        return len(case[1]) == 3 or case[7] == 2 or (len(case[0]) == 3 and case[8] is None)

    def run(self, case, ctx):
        if case[0] == "dev":
            return self.dev(case, ctx)
        t, rows, vals, y, yk, xk, metric, rep, feats = case
        g = grid([DOM[x] for x in t])
        cols = NAMES[:len(t)]
        rws = [g[r] for r in rows]
        table = dict(zip(g, vals))
        X = frame(cols, rws, xk)
        yv = make_y(y, yk, xk)
        features = None if feats is None else [cols[i] for i in feats]
        names = features or list(cols)
        pairs = [tuple(p) for p in itertools.combinations(names, 2)]
        model = TableModel(cols, table)
        got = defaultdict(Fraction)
        partial = False
        n = 0

        def once():
            m = env.SejongOhMethod(METRICS[metric](), random_state=3)
            m.fit(model, X, yv, n_repeat=rep, features=features)
            return m

        for src, m in env.explore(once):
            ctx.step()
            n += 1
            ovo = pair_table(m.ovo, col=m.method)
            imp = feature_table(m.feature_importance)
            expect(set(ovo) == {frozenset(p) for p in pairs}, "pairs %s instead of %s", list(ovo), pairs)
            expect(set(imp) == set(names), "importance lists %s instead of %s", sorted(imp), names)
            w = Fraction(1)
            for a in src.arity:
                w /= a
            got[tuple(R(ovo[frozenset(p)]) for p in pairs) + tuple(R(imp[f]) for f in names)] += w
            if src.uncontrolled:
                partial = True
                ctx.count("uncontrolled")
                break
        dists = []
        for f1, f2 in pairs:
            l1 = loss_dist(rws, table, y, metric, {cols.index(f1)})
            l2 = loss_dist(rws, table, y, metric, {cols.index(f2)})
            l12 = loss_dist(rws, table, y, metric, {cols.index(f1), cols.index(f2)})
            single = Counter(R(abs(c - a - b)) for a in l1 for b in l2 for c in l12)
            tot = sum(single.values())
            d = {0.0: Fraction(1)}
            acc = Counter()
            for combo in itertools.product(single.items(), repeat=rep):
                v = R(math.fsum(k for k, _ in combo) / rep)
                pr = Fraction(1)
                for _, c in combo:
                    pr *= Fraction(c, tot)
                acc[v] += pr
            dists.append(dict(acc))
        for f in names:
            dists.append(mean_dist(loss_dist(rws, table, y, metric, {cols.index(f)}), rep))
        want = product_dist(dists)
        got, want = merge_close(dict(got)), merge_close(want)
        compare_dist(got, want, "interactions %s and importance %s" % (pairs, names), partial)
        ctx.trace(n)
        ctx.peak("outcomes_per_case", n)
        for k in got:
            ctx.state((case, k))
        if len(got) > 1:
            ctx.nt(case)
        ctx.sample = {"random_outcomes_executed": n, "distinct_results": len(got)}


def merge_close(d):
    """Coarser rounding, so that two roundings of the same real number do not count as two outcomes."""
    out = defaultdict(Fraction)
    for k, v in d.items():
        out[tuple(round(x, 5) + 0.0 for x in k)] += v
    return dict(out)


# ------------------------------------------------------------------------------------------------- C17
class C17:
    id = "C17"
    rule = ("a case is (method, data, labels of data and target, n); every ordered sample the generator can produce is "
            "executed; non-trivial: 0 < n < number of rows, by distinct case")
    assumptions = ["sampling is driven by the object's numpy generator; after the sample, permutations are fixed to one "
                   "representative sequence (C10 enumerates them)"]
    chunk = 16

    def bound(self, tier):
        return ("every ordered sample of every size n from %s rows, and of 1-2 of 12-15 rows, also from data with equal rows; 4-10 samples of 7-110 of 20-110 rows; %d label combinations; Friedman (pairs and one-vs-all), "
                "Greenwell, importance, additivity, Sejong Oh" % (("2-4", 7) if tier == "quick" else ("2-5", 10)))

    def cases(self, tier):
        quick = tier == "quick"
        out = []
        labels = [("range", "array"), ("dup", "array"), ("str", "same"), ("range", "reversed"), ("dup", "same"),
                  ("shuffled", "offset"), ("reversed", "array")]
        if not quick:
            labels += [("dup2", "dup2"), ("multi", "same"), ("float", "str")]
        sizes = [(N, n) for N in ((2, 3, 4) if quick else (2, 3, 4, 5)) for n in range(1, N + 1)]
        for N, n in sizes + [(12, 1), (12, 2), (15, 2)]:
            for xk, yk in labels if N < 12 else labels[1:4]:
                for what in ("friedman", "greenwell", "importance", "additivity", "sejong"):
                    if what != "sejong" and yk not in ("array", "same"):
                        continue
                    if what == "additivity" and n == 1:      # constant predictions: not specified
                        continue
                    out.append((what, N, n, xk, yk))
        # data with equal rows
        for N, n in [(3, 2), (4, 2), (4, 3), (4, 4)] + ([] if quick else [(5, 2), (5, 3), (5, 4)]):
            for xk, yk in labels[:3] + labels[4:5]:
                for what in ("friedman", "greenwell", "importance", "additivity", "sejong"):
                    if what != "additivity" or n > (N + 1) // 2:        # else constant predictions
                        out.append((what, N, n, xk, yk, "twins"))
        # beyond: large data
        for N, n in [(20, 9), (40, 33), (110, 7), (110, 101), (110, 110)] + ([] if quick else [(140, 120), (20, 19)]):
            for xk, yk in labels[1:4]:
                for what in ("friedman", "greenwell", "importance", "additivity", "sejong"):
                    if what == "sejong" or (yk in ("array", "same") and (n < 90 or xk == "dup")):
                        out.append((what, N, n, xk, yk, "large"))
        return out

    def run(self, case, ctx):
        what, N, n, xk, yk = case[:5]
        twins, large = "twins" in case, "large" in case
        family = (4 if n > 50 else 10) if large else 0
        cols = ("a", "b")
        # all rows are different, so that a sampled row identifies its position
        rws = [((i * 3) % 5, "xyz"[(i * 2) % 3]) for i in range(N)]
        if large:
            rws = [((i * 3) % 13, "v%02d" % ((i * 2) % 11)) for i in range(N)]
        if twins:               # ... or come in pairs: then only the target tells them apart
            rws = [rws[i % (N // 2)] for i in range(N)]
        doms = [sorted({r[0] for r in rws}), sorted({r[1] for r in rws})]
        k = len(grid(doms))
        table = make_table(doms, [generic(i) for i in range(k)] if k <= 64 else [
            generic((i * i * 31 + i * 7) % 70) + generic(i % 67) / 4 for i in range(k)])
        y = [10 * i + 1 for i in range(N)]
        X = frame(cols, rws, xk)
        yv = make_y(y, yk, xk)
        model = TableModel(cols, table)
        subsets = set()
        partial = False
        tail = (1, 0, 2, 1, 1, 0, 1) if n >= 3 else (1, 0, 1, 1, 0, 1, 1) if n == 2 else (0,) * 7
        stack = [()]
        total = 0
        first = env.Choices((), family)
        with env.controlled(first):
            self.fit(what, model, X, yv, n)
        if first.uncontrolled or not first.arity:
            expect(bool(first.uncontrolled), "asking for n=%d of %d rows draws nothing", n, N)
            ctx.count("uncontrolled")
            arity = 1
            partial = True
        else:
            arity = first.arity[0]
        for k in range(arity):
            draws = len(first.arity) - 1
            src = env.Choices(((k,) if not partial else ()) + tuple(tail[i % 7] % max(1, first.arity[1 + i]) for i in range(draws)), family)
            with env.controlled(src):
                m, table_got = self.fit(what, model, X, yv, n)
            ctx.step()
            total += 1
            Xs = m.X_sampled
            got_rows = [tuple(v) for v in zip(*[Xs[c].tolist() for c in cols])]
            expect(list(Xs.columns) == list(cols), "sampled columns %r", list(Xs.columns))
            expect(len(got_rows) == n, "%d rows sampled instead of %d", len(got_rows), n)
            expect(not Counter(got_rows) - Counter(rws), "sampled rows %r are not %d distinct rows of the data", got_rows, n)
            pos, free = [], list(range(N))
            for i, r in enumerate(got_rows):
                at = [p for p in free if rws[p] == r]
                if twins and what == "sejong":
                    at = [p for p in at if y[p] == np.asarray(m.y_sampled)[i]]
                    expect(at, "sampled rows %r with targets %r: no such distinct rows", got_rows, list(np.asarray(m.y_sampled)))
                pos.append(at[0])
                free.remove(at[0])
            if what == "sejong":
                ys = list(np.asarray(m.y_sampled))
                expect(ys == [y[p] for p in pos], "rows %r sampled with targets %r instead of %r", pos, ys,
                       [y[p] for p in pos])
            subsets.add(tuple(sorted(pos)))
            # the same explanation of exactly those rows, without sampling
            src2 = env.Choices(src.taken[1:] if not partial else (), family)
            with env.controlled(src2):
                m2, want = self.fit(what, model, frame(cols, got_rows), np.array([y[p] for p in pos]), None)
            ctx.step()
            if not partial or what != "sejong":
                for part in want:
                    same_table(table_got[part], want[part], "%s of sample %r vs of these rows: %s" % (what, pos, part))
            if what != "sejong":
                ref = Ref(cols, got_rows, table)
                if what == "friedman":
                    expect(close(table_got["ovo"][frozenset(cols)], ref.h_pair("a", "b")), "H of sample %r wrong", pos)
                elif what == "greenwell":
                    expect(close(table_got["ovo"][frozenset(cols)], ref.greenwell("a", "b")), "Greenwell of sample %r wrong", pos)
            ctx.state((case, tuple(pos)))
            ctx.trace()
        if not partial and not large:
            combos = itertools.combinations(range(N), n)
            if twins and what != "sejong":
                combos = [tuple(sorted(rws[p] for p in c)) for c in combos]
                subsets = {tuple(sorted(rws[p] for p in c)) for c in subsets}
            expect(subsets == set(combos), "only the samples %r can be drawn", sorted(subsets))
        if n < N:
            ctx.nt(case)
        ctx.sample = {"samples_executed": total, "distinct_subsets": len(subsets)}

    @staticmethod
    def fit(what, model, X, y, n):
        if what == "friedman":
            m = env.FriedmanHStatisticMethod(random_state=0)
            m.fit(model, X, n=n)
            return m, {"ovo": pair_table(m.ovo), "ova": feature_table(m.ova, m.method),
                       "importance": feature_table(m.feature_importance)}
        if what == "greenwell":
            m = env.GreenwellMethod(random_state=0)
            m.fit(model, X, n=n)
            return m, {"ovo": pair_table(m.ovo), "importance": feature_table(m.feature_importance)}
        if what == "importance":
            m = env.PartialDependenceBasedImportance()
            m.importance(model, X, n=n)
            return m, {"importance": feature_table(m.feature_importance)}
        if what == "additivity":
            m = env.AdditivityMeter(random_state=0)
            return m, {"index": {"index": m.fit(model, X, n=n)}}
        m = env.SejongOhMethod(env.MSE(), random_state=0)
        m.fit(model, X, y, n=n, n_repeat=1)
        return m, {"ovo": pair_table(m.ovo), "importance": feature_table(m.feature_importance)}


# ------------------------------------------------------------------------------------------------- C18
def interleavings(na, nb):
    for pos in itertools.combinations(range(na + nb), na):
        yield "".join("A" if i in pos else "B" for i in range(na + nb))


class C18:
    id = "C18"
    rule = ("a case is (method, seed, interleaving of the calls of two equally seeded objects, disturbance, position); "
            "non-trivial: the interleaving mixes the objects or disturbs between their calls, by distinct case")
    assumptions = ["unseeded generators are answered differently on every request; the global numpy and random states are "
                   "reseeded by the disturbance"]
    chunk = 40

    def bound(self, tier):
        return ("all 20 interleavings of construct/run/run of two objects x (no disturbance or one of 4 at each of 7 "
                "positions) x 6 methods x seeds %s; three of them also with samples of 110 and 40 of 130 rows; processes with %d different string hash seeds" %
                (("0, 42", 9) if tier == "quick" else ("0, 1, 42, 123456", 41)))

    def cases(self, tier):
        seeds = (0, 42) if tier == "quick" else (0, 1, 42, 123456)
        out = []
        for what in ("friedman", "greenwell", "additivity", "sejong", "permutation", "sejong_n"):
            for seed in seeds:
                for il in interleavings(3, 3):
                    out.append((what, seed, il, None, 0))
        for what in ("friedman", "greenwell", "additivity", "sejong", "permutation", "sejong_n"):
            for seed in seeds:
                for il in interleavings(3, 3):
                    for noise in ("global", "unseeded", "seeded", "other"):
                        for pos in range(7):
                            out.append((what, seed, il, noise, pos))
        # beyond: many rows, values and draws
        for what in ("friedman", "greenwell", "additivity", "sejong", "permutation", "sejong_n"):
            for seed in seeds:
                for il in ("AAABBB", "ABABAB", "ABBBAA"):
                    out.append((what, seed, il, None, 0, "large"))
                    out += [(what, seed, il, noise, pos, "large") for noise in ("global", "unseeded", "seeded", "other")
                            for pos in ((1, 3, 4) if tier == "quick" else range(7))]
        out += [("hash", k, 0, None, 0) for k in range(1, 9 if tier == "quick" else 41)]
        out += [("plain", w, rep, None, 0) for w in ("friedman", "greenwell", "additivity", "importance") for rep in (1, 2)]
        return out

    def run(self, case, ctx):
        if case[0] == "hash":
            return self.hash_seed(case, ctx)
        cols = ("a", "b")
        rws = [(0, 1), (2, 0), (1, 3), (2, 2), (0, 0), (1, 1), (2, 4)]
        table = {(i, j): generic(i * 5 + j) for i in range(3) for j in range(5)}
        X = frame(cols, rws, "str")
        y = pd.Series([3, 1, 4, 1, 5, 9, 2], index=make_index("reversed", 7))
        large = len(case) > 5
        if large:
            rws = [(i * 7 % 11, i * i % 13) for i in range(130)]
            table = {(i, j): generic((i * 13 + j) % 70) for i in range(11) for j in range(13)}
            X = frame(cols, rws, "str")
            y = pd.Series([i * i % 17 for i in range(130)], index=make_index("reversed", 130))
        model = TableModel(cols, table)
        if case[0] == "plain":
            a = self.call(self.make(case[1], None), case[1], model, X, y, None)
            env.quiet_random(777)
            b = self.call(self.make(case[1], None), case[1], model, X, y, None)
            expect(a == b, "two runs without sampling differ: %r / %r", a, b)
            ctx.step(2)
            ctx.trace()
            ctx.state(case)
            return
        what, seed, il, noise, pos = case[:5]
        objs, results, done = {}, {"A": [], "B": []}, {"A": 0, "B": 0}

        def disturb():
            ctx.step()
            if noise == "global":
                np.random.seed(99)
                random.seed(99)
                np.random.random()
            elif noise == "unseeded":
                self.call(self.make(what, None), what, model, X, y, 4)
            elif noise == "seeded":
                self.call(self.make(what, seed), what, model, X, y, 4)
            elif noise == "other":
                self.call(self.make("sejong", seed + 1), "sejong", model, X, y, 5)
                self.call(self.make("friedman", seed + 1), "friedman", model, X, y, 5)

        for i, who in enumerate(il):
            if noise is not None and i == pos:
                disturb()
            d = done[who]
            done[who] += 1
            ctx.step()
            if d == 0:
                objs[who] = self.make(what, seed)
            else:
                results[who].append(self.call(objs[who], what, model, X, y, (110, 40)[d - 1] if large else 5 - d))
        if noise is not None and pos == 6:
            disturb()
        for k in range(2):
            expect(results["A"][k] == results["B"][k],
                   "%s with random_state=%r: run %d of two equally seeded objects differs (%s): %r / %r", what, seed,
                   k + 1, il, results["A"][k], results["B"][k])
        ctx.trace()
        ctx.state((what, seed, repr(results["A"])))
        ctx.state((il, noise, pos))
        ctx.seen("distinct_results", repr(results["A"]))
        if il != "AAABBB" or noise:
            ctx.nt(case)
        ctx.sample = {"first_result": repr(results["A"][0])[:200]}

    def hash_seed(self, case, ctx):
        """The same program in a process with other string hashes (other iteration orders of sets)."""
        code = "import json; from mc.checks import randomised as r; print('RESULT' + json.dumps(r.hash_results()))"
        p = subprocess.run([sys.executable, "-B", "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(case[1])),
                           cwd=os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", ".."), capture_output=True, text=True)
        lines = [x for x in p.stdout.splitlines() if x.startswith("RESULT")]
        expect(len(lines) == 1, "the process with other string hashes failed: %s", p.stderr[-500:])
        got, want = json.loads(lines[0][6:]), hash_results()
        for k in want:
            expect(got.get(k) == want[k], "%s depends on string hashing: %s / %s", k, str(got.get(k))[:300], want[k][:300])
        ctx.step(2 * len(want))
        ctx.trace()
        ctx.state(case)
        ctx.nt(case)

    @staticmethod
    def make(what, seed):
        if what == "friedman":
            return env.FriedmanHStatisticMethod(random_state=seed)
        if what == "greenwell":
            return env.GreenwellMethod(random_state=seed)
        if what == "additivity":
            return env.AdditivityMeter(random_state=seed)
        if what == "importance":
            return env.PartialDependenceBasedImportance()
        if what == "permutation":
            return env.PermutationImportance(env.RMSE(), random_state=seed)
        return env.SejongOhMethod(env.RMSE(), random_state=seed)

    @staticmethod
    def call(m, what, model, X, y, n):
        if what == "permutation":
            return table_repr(m.importance(model, X, y, n_repeat=2))
        if what == "importance":
            return table_repr(m.importance(model, X))
        if what == "additivity":
            return (m.fit(model, X, n=n), tuple(m.X_sampled.index))
        if what == "sejong":
            m.fit(model, X, y, n_repeat=2)
            return table_repr(m.ovo), table_repr(m.feature_importance)
        if what == "sejong_n":
            m.fit(model, X, y, n=n, n_repeat=1)
            return table_repr(m.ovo), table_repr(m.feature_importance), tuple(m.X_sampled.index)
        m.fit(model, X, n=n)
        return table_repr(m.ovo), table_repr(m.feature_importance), tuple(m.X_sampled.index)


HASH_NAMES = ("alpha", "beta", "gam", "delta")


def hash_results():
    """Results and figures of every method for seeded objects, as text."""
    from .. import figs, fitted
    out = {}
    for code in ("F", "U", "G", "S", "X", "L", "C"):
        m = fitted.fit(code, 3 if code in "XLC" else 4, names=HASH_NAMES)
        for k, v in sorted(fitted.results(m).items()):
            out["%s %s" % (code, k)] = v.to_csv() if hasattr(v, "to_csv") else repr(v)
        for v in ("heatmap", "graph", "bar_chart"):
            out["%s %s" % (code, v)] = repr(figs.describe(figs.one_figure(lambda: m.plot(v))))
    model, X, _ = fitted.toy(4, names=HASH_NAMES)
    y = np.array([3.0, 1.0, 4.0, 1.0, 5.0])
    for fs in (None, ["delta", "alpha"]):
        out["P %s" % fs] = env.PermutationImportance(env.RMSE(), random_state=5).importance(model, X, y, 2, features=fs).to_csv()
        out["D %s" % fs] = env.PartialDependenceBasedImportance().importance(model, X, features=fs).to_csv()
        s = env.SejongOhMethod(env.RMSE(), random_state=5)
        s.fit(model, X, y, n=4, n_repeat=2, features=fs)
        out["S %s" % fs] = s.ovo.to_csv() + s.feature_importance.to_csv()
        f = env.FriedmanHStatisticMethod(random_state=5)
        f.fit(model, X, n=4, features=fs)
        out["F %s" % fs] = f.ovo.to_csv() + f.ova.to_csv() + f.feature_importance.to_csv()
    a = env.AdditivityMeter(random_state=5)
    out["A"] = repr(a.fit(model, X, n=4)) + a.full_result.to_csv()
    return out


def table_repr(df):
    return tuple(map(tuple, df.values.tolist()))
