"""C25, C26: comparison of explanations, value look-up."""
import itertools
import math
import random
from fractions import Fraction

import matplotlib.pyplot as plt
import numpy as np
from matplotlib.collections import PathCollection
from matplotlib.text import Annotation

from .. import env, figs, fitted
from ..core import expect
from ..domain import TableModel, close, frame, generic, make_table
from . import forests, plots

NAMES6 = ("f", "b", "a", "e", "c", "d")
NAMES4 = ("b", "a", "d", "c")
NAMES10 = ("f", "b", "a", "e", "c", "d", "x10", "B", "x9", "g")


# ---------------------------------------------------------------- oracle
def table_of(m):
    """{frozenset pair: value} as value look-up defines it, direction, and whether every pair is reported once."""
    asc = plots.smaller_is_stronger(m)
    if plots.is_directed(m):
        acc = {}
        for f, g, v in zip(m.ovo["root_variable"], m.ovo["variable"], m.ovo[m.method]):
            acc.setdefault(frozenset((f, g)), [])
            if not forests.isnull(v):
                acc[frozenset((f, g))].append(float(v))
        return {k: (sum(v) / len(v) if v else None) for k, v in acc.items()}, asc, True
    acc = {}
    for f, g, v in zip(m.ovo["Feature 1"], m.ovo["Feature 2"], m.ovo[m.method]):
        acc.setdefault(frozenset((f, g)), []).append(float(v))
    return ({k: (min(v) if asc else max(v)) for k, v in acc.items()}, asc, all(len(v) == 1 for v in acc.values()))


def average_ranks(values):
    out = []
    for v in values:
        less = sum(1 for w in values if w < v)
        same = sum(1 for w in values if w == v)
        out.append(Fraction(2 * less + same + 1, 2))
    return out


def pearson(x, y):
    n = len(x)
    if n < 2:
        return None
    mx, my = sum(x) / n, sum(y) / n
    sxy = sum((a - mx) * (b - my) for a, b in zip(x, y))
    sxx, syy = sum((a - mx) ** 2 for a in x), sum((b - my) ** 2 for b in y)
    if sxx == 0 or syy == 0:
        return None
    return float(sxy) / math.sqrt(float(sxx) * float(syy))


def kendall(x, y):
    c = tx = ty = 0
    n = len(x)
    for i in range(n):
        for j in range(i):
            a, b = (x[i] > x[j]) - (x[i] < x[j]), (y[i] > y[j]) - (y[i] < y[j])
            c += a * b
            tx += a == 0
            ty += b == 0
    n0 = n * (n - 1) // 2
    if n0 == tx or n0 == ty:
        return None
    return c / math.sqrt((n0 - tx) * (n0 - ty))


def expected(m1, m2):
    """{method: value or None}, number of common pairs, whether both know the same pairs"""
    t1, asc1, _ = table_of(m1)
    t2, asc2, _ = table_of(m2)
    known1, known2 = {k for k, v in t1.items() if v is not None}, {k for k, v in t2.items() if v is not None}
    common = sorted(known1 & known2, key=sorted)
    # rank 1 = strongest, in each method's own direction; numerically equal values only
    s1 = [t1[k] if asc1 else -t1[k] for k in common]
    s2 = [t2[k] if asc2 else -t2[k] for k in common]
    r1, r2 = average_ranks(s1), average_ranks(s2)
    p = pearson(r1, r2)
    return {"pearson": p, "spearman": p, "kendall": kendall(s1, s2)}, len(common), known1 == known2


def same_corr(got, want, what):
    got = float(got)
    if want is None:
        expect(got != got, "%s is %r, but at least one side does not rank the pairs", what, got)
    else:
        expect(close(got, want), "%s is %r, should be %r", what, got, want)


# ---------------------------------------------------------------- explanations with prescribed strengths
def weak_orders(n):
    out = set()
    for v in itertools.product(range(n), repeat=n):
        ds = sorted(set(v))
        out.add(tuple(ds.index(x) for x in v))
    return sorted(out)


def by_gain(pairs, levels, names, flip=0):
    """Split scores (mean gain): pair i gets strength levels[i] + 1."""
    trees = []
    for i, (p, l) in enumerate(zip(pairs, levels)):
        a, b = (p[1], p[0]) if (flip >> i) & 1 else p
        trees.append(((a, 0.5, 9.0), ((b, float(l + 1), 4.0), None, None), None))
    m = env.SplitScoreMethod()
    with fitted.quiet():
        m.fit(fitted.gb_model("xgb", len(names), trees, names), interaction_selected_metric="mean_gain")
    return m


def by_depth(pairs, levels, names, flip=0):
    """Split scores (mean depth): pair i gets depth levels[i] + 1."""
    trees = []
    for i, (p, l) in enumerate(zip(pairs, levels)):
        a, b = (p[1], p[0]) if (flip >> i) & 1 else p
        t = ((a, 1.0, 9.0), None, ((b, 2.0, 4.0), None, None))
        for d in range(l):
            t = (((i + d) % len(names), 50.0 + d, 20.0 + d), t, None) if d % 2 else (((i + d) % len(names), 50.0 + d, 20.0 + d),
                                                                                 None, t)
        trees.append(t)
    m = env.SplitScoreMethod()
    with fitted.quiet():
        m.fit(fitted.gb_model("xgb", len(names), trees, names), interaction_selected_metric="mean_depth")
    return m


PAIRS = {2: ((1, 0), (0, 2)), 6: tuple(itertools.combinations(range(4), 2)), 15: tuple(itertools.combinations(range(6), 2)),
         45: tuple(itertools.combinations(range(10), 2)), 3: ((0, 1), (0, 2), (1, 2)), 4: ((0, 1), (2, 0), (1, 3), (3, 2))}


def long_orders(n, tier):
    """Orders of 6 or 15 pairs: with the identity and ties first."""
    if n == 6:
        out = list(itertools.permutations(range(6)))[::12 if tier == "quick" else 1]
        return out + [(0, 0, 1, 2, 3, 3), (1, 0, 1, 0, 1, 0), (2, 2, 2, 0, 1, 1)]
    if n == 45:
        return [tuple((s * i + o) % 45 for i in range(45)) for s, o in ((1, 0), (44, 44), (2, 7), (14, 3), (29, 11))] + \
            [tuple((s * i * i + i + o) % 12 for i in range(45)) for s, o in ((0, 0), (1, 5), (5, 2))]
    return [tuple((s * i + o) % 15 for i in range(15)) for s in (1, 2, 4, 7, 8, 11, 13, 14) for o in (0, 5, 9)] + \
        [tuple(i // 2 for i in range(15)), tuple(i % 4 for i in range(15)), tuple(min(i, 9) for i in range(15))]


SEPARATED = [("a", "b" + s + "c", "a" + s + "b", "c") for s in ("", "-", "_", ":", " ", ",", "', '")] + \
    [("x1", "x10", "x", "0x1"), ("A", "a", "B", "b"), ("Feature 1", "Feature 2", "variable", "id")]


def pool(tier):
    """Descriptions of real fits over the features b, a, c (, d)."""
    out = []
    for s in (0, 9, 21, 33) if tier == "quick" else range(0, 60, 4):
        out += [(c, s, None) for c in "FGS"]
    out += [("U", 5, None), ("F", 3, ("c", "a")), ("F", 3, ("a", "c", "b")), ("G", 7, ("c", "b")), ("S", 7, ("a", "b")),
            ("G", 11, ("c", "b", "a")), ("F4", 2, None), ("G4", 6, ("d", "b", "a")), ("add", 0, None)]
    for pkg in "XL":
        for metric in ("mean_gain", "sum_gain", "mean_depth") + (("sum_cover",) if pkg == "X" else ()):
            out.append((pkg, metric, True))
    out += [("gain", (2, 0, 1), 1), ("gain", (0, 0, 1), 6), ("depth", (1, 0, 2), 3), ("depth", (0, 1, 0), 4)]
    out += [("X", "mean_depth", False), ("L", "sum_gain", False)]
    out += [("C", p, None) for p in ((0,), (1,), (2,), (0, 1, 2), (0, 0, 1))] + [("C2", (), None)]
    return out


def build(d):
    code, a, b = d
    with fitted.quiet():
        if code in ("F", "G", "S", "U"):
            return fitted.fit(code, shift=a, **({} if b is None else {"features": list(b)}))
        if code in ("gain", "depth"):
            return (by_gain if code == "gain" else by_depth)(PAIRS[3], a, fitted.NAMES[:3], b)
        if code in ("F4", "G4"):
            return fitted.fit(code[0], nf=4, shift=a, **({} if b is None else {"features": list(b)}))
        if code == "add":
            m = env.FriedmanHStatisticMethod()
            cols = fitted.NAMES[:3]
            m.fit(TableModel(cols, make_table([(0, 1)] * 3, [r[0] + 0.5 * r[1] - 0.25 * r[2] for r in
                                                             itertools.product((0, 1), repeat=3)])),
                  frame(cols, [(0, 0, 1), (1, 0, 0), (1, 1, 1), (0, 1, 0)]))
            return m
        if code in ("X", "L"):
            return fitted.fit(code, interaction_selected_metric=a, only_def_interactions=b)
        m = env.ConditionalMinimalDepthMethod()
        if code == "C":
            m.fit(fitted.rf_model(trees=[fitted.RF_TREES[i] for i in a]))
        else:
            m.fit(fitted.rf_model(4, [(0, (1, None, None), (3, None, None)), (1, None, (0, None, None))]))
        return m


class Compare:
    chunk = 60
    assumptions = ["pairs a method reports as missing do not take part", "pairs reported in both orders count with their "
                   "stronger value, as value look-up does", "Pearson correlation of ranks is checked where both explanations "
                   "know the same pairs (otherwise the ranks of the common pairs may have gaps)"]

    def prepare(self, tier):
        self.descr = pool(tier)
        self.pool = [build(d) for d in self.descr]
        self.made = {}
        for n, names in ((2, NAMES4[:3]), (3, NAMES4[:3]), (4, NAMES4), (6, NAMES4), (15, NAMES6), (45, NAMES10)):
            for w in weak_orders(n) if n < 6 else long_orders(n, tier):
                for how in (by_gain, by_depth) if max(w) < 15 else (by_gain,):
                    k = (how.__name__, n, w)
                    self.made[k] = how(PAIRS[n], w, names, (3 * len(self.made)) % (2 ** n))


class C25(Compare):
    id = "C25"
    rule = ("a case is an ordered pair of fitted explanations; non-trivial: at least two common pairs that both rank, by "
            "distinct pair of rankings")

    def bound(self, tier):
        return ("all pairs of weak orderings of 2 and 3 pairs x 4 combinations of directions and all pairs of weak orderings of 4 "
                "pairs (%s), selected orders of 6, 15 and 45 pairs, realised by boosted models, mixed orientations; all ordered pairs of %d real explanations of all "
                "five methods with equal or partly overlapping pairs; %d name sets x all 24 rankings of the colliding pairs" %
                ("2 combinations" if tier == "quick" else "4 combinations", len(pool(tier)), len(SEPARATED)))

    def cases(self, tier):
        out = [("made", 3, a, b, x, y) for a in weak_orders(3) for b in weak_orders(3) for x in ("by_gain", "by_depth")
               for y in ("by_gain", "by_depth")]
        out += [("pool", i, j) for i in range(len(self.pool)) for j in range(len(self.pool))]
        out += [("names", k, p, how) for k in range(len(SEPARATED)) for p in itertools.permutations(range(4))
                for how in ("by_gain", "by_depth")]
        out += [("made", 2, a, b, x, y) for a in weak_orders(2) for b in weak_orders(2) for x in ("by_gain", "by_depth")
                for y in ("by_gain", "by_depth")]
        lo = long_orders(45, tier)
        for a, b in itertools.product(lo, repeat=2):
            out += [("made", 45, a, b, x, y) for x in (("by_gain", "by_depth") if max(a) < 15 else ("by_gain",))
                    for y in (("by_gain", "by_depth") if max(b) < 15 else ("by_gain",))]
        for n in (6, 15):
            lo = long_orders(n, tier)
            for a in lo[:1] + lo[-3:]:
                for b in lo:
                    out += [("made", n, a, b, "by_gain", "by_depth"), ("made", n, b, a, "by_gain", "by_gain"),
                            ("made", n, b, a, "by_depth", "by_depth")]
        combos = (("by_gain", "by_gain"), ("by_gain", "by_depth")) if tier == "quick" else \
            tuple(itertools.product(("by_gain", "by_depth"), repeat=2))
        out += [("made", 4, a, b, x, y) for a in weak_orders(4) for b in weak_orders(4) for x, y in combos]
        return out

    def run(self, case, ctx):
        if case[0] == "made":
            _, n, a, b, x, y = case
            m1, m2 = self.made[(x, n, a)], self.made[(y, n, b)]
            # the construction gives exactly the prescribed strengths
            for m, w in ((m1, a), (m2, b)):
                t = table_of(m)[0]
                got = [t.get(frozenset((NAMES4 if n < 15 else NAMES6 if n == 15 else NAMES10)[i] for i in p)) for p in PAIRS[n]]
                expect(got == [l + 1 for l in w], "reported strengths %r instead of %r", got, [l + 1 for l in w])
        elif case[0] == "pool":
            m1, m2 = self.pool[case[1]], self.pool[case[2]]
        else:
            _, k, p, how = case
            names = SEPARATED[k]
            prs = ((0, 1), (2, 3), (0, 3), (1, 2))
            m1 = by_gain(prs, (0, 1, 2, 3), names, 5)
            m2 = {"by_gain": by_gain, "by_depth": by_depth}[how](prs, p, names, 2)
        want, n, same = expected(m1, m2)
        c = env.FeatureInteractionMethodComparator()
        for name in ("kendall", "spearman", "pearson"):
            if name == "pearson" and not same:
                continue
            same_corr(c.correlation(m1, m2, name), want[name], "%s correlation" % name)
            ctx.step()
        same_corr(c.correlation(m1, m2), want["kendall"], "default correlation")
        same_corr(c.correlation(m2, m1, "kendall"), want["kendall"], "kendall correlation with the methods exchanged")
        if case[0] != "made" or case[1] == 3:
            df = c.correlations(m1, m2)
            got = dict(zip(df["method"], df["value"]))
            expect(set(got) == {"pearson", "kendall", "spearman"} and len(df) == 3, "correlations lists %r", list(got))
            for name in got:
                if name != "pearson" or same:
                    same_corr(got[name], want[name], "%s correlation in the table" % name)
            ctx.step(3)
        ctx.trace()
        ctx.state((case[0], repr(sorted(map(str, want.items()))), n))
        ctx.peak("common_pairs", n)
        if want["kendall"] is not None:
            ctx.nt(case)
        ctx.sample = {"expected": want, "common_pairs": n}


class C26(Compare):
    id = "C26"
    rule = ("a case is a fitted explanation (look-up of every ordered pair) or an ordered pair of explanations with a number of "
            "labels; non-trivial: at least two different points, by distinct case")

    def bound(self, tier):
        return ("every ordered pair of features of every explanation of C22 and of the pool; comparison plots of all ordered "
                "pairs of %d real explanations and of the weak orderings of 3 pairs, label counts 0..%s, selected orders of 6-45 pairs with up to 60 labels, with and without "
                "correlation box, and summary()" % (len(pool(tier)), "4 in turn" if tier == "quick" else "4"))

    def cases(self, tier):
        out = [("value", i) for i in range(len(self.pool))]
        specs = plots.all_specs(tier)
        out += [("spec", s) for s in (specs[::3] if tier == "quick" else specs)]
        n = len(self.pool)
        labels = (0, 1, 2, 3, 4)
        for i in range(n):
            for j in range(n):
                for l in ([labels[(i + 2 * j) % 5]] if tier == "quick" else labels):
                    out.append(("plot", ("p", i), ("p", j), l, (i + j) % 3))
        w = weak_orders(3)
        for i, a in enumerate(w):
            for j, b in enumerate(w):
                for x, y in itertools.product(("by_gain", "by_depth"), repeat=2):
                    out.append(("plot", (x, 3, a), (y, 3, b), (i + j) % 5, (i + 2 * j) % 3))
        for n in (6, 15, 45):
            lo = [k for k in self.made if k[1] == n]
            for i, a in enumerate(lo[::max(1, len(lo) // 6)]):
                for j, b in enumerate(lo[1::max(1, len(lo) // 5)]):
                    out.append(("plot", a, b, (0, 1, 3, 5, 10, 20, 60)[(i + 2 * j) % 7], (i + j) % 2))
        return out

    def get(self, k):
        return self.pool[k[1]] if k[0] == "p" else self.made[k]

    def run(self, case, ctx):
        if case[0] == "plot":
            return self.plot(case, ctx)
        m = self.pool[case[1]] if case[0] == "value" else plots.fit_spec(case[1])
        if m is None or not len(m.ovo):
            ctx.count("nothing_reported")
            return
        t = table_of(m)[0]
        for k, v in t.items():
            f, g = sorted(k) if len(k) == 2 else list(k) * 2
            for p in ((f, g), (g, f)):
                got = m.interaction_value(*p)
                ctx.step()
                if v is None:
                    expect(forests.isnull(got), "value of %s is %r, none is reported", p, got)
                else:
                    expect(close(float(got), v), "value of %s is %r, reported %r", p, got, v)
        ctx.trace()
        ctx.state((m.method, tuple(sorted((tuple(sorted(k)), repr(v)) for k, v in t.items()))))
        if len(set(t.values())) > 1:
            ctx.nt(case)

    def plot(self, case, ctx):
        _, k1, k2, n_labels, box = case
        m1, m2 = self.get(k1), self.get(k2)
        (t1, asc1, once1), (t2, asc2, once2) = table_of(m1), table_of(m2)
        if not (once1 and once2):
            ctx.count("pairs_in_both_orders")
            return
        common = [k for k in t1 if k in t2 and t1[k] is not None and t2[k] is not None]
        c = env.FeatureInteractionMethodComparator()
        random.seed(1)
        if box == 2:
            n_labels = 3
            fig = figs.one_figure(lambda: c.summary(m1, m2))
            ax = fig.axes[0]
            got = dict(zip(c.correlations_df["method"], c.correlations_df["value"]))
            want, _, same = expected(m1, m2)
            for name in got:
                if name != "pearson" or same:
                    same_corr(got[name], want[name], "%s correlation of the summary" % name)
            f2 = c.ovo_profiles_comparison_plot
            expect((f2[0] if isinstance(f2, tuple) else f2) is fig, "the summary keeps another figure than it drew")
        else:
            res = []
            fig = figs.one_figure(lambda: res.append(c.comparison_plot(m1, m2, n_labels=n_labels,
                                                                       add_correlation_box=box == 1)))
            ax = fig.axes[0]
        ctx.step()
        pts = []
        for col in ax.collections:
            if isinstance(col, PathCollection):
                pts += [tuple(map(float, p)) for p in np.ma.filled(np.ma.asarray(col.get_offsets(), float), np.nan)]
        pts = [p for p in pts if p[0] == p[0] and p[1] == p[1]]
        expect(len(pts) == len(common), "%d points for %d common pairs", len(pts), len(common))
        left = list(pts)
        for k in common:
            hit = [p for p in left if close(p[0], t1[k]) and close(p[1], t2[k])]
            expect(hit, "no point at (%r, %r) for pair %s; points %r", t1[k], t2[k], sorted(k), pts)
            left.remove(hit[0])
        notes = [a for a in ax.texts if isinstance(a, Annotation)]
        notes = [a for a in notes if all(float(v) == float(v) for v in a.xy)]
        text = {}
        for k in common:
            for p in itertools.permutations(k if len(k) == 2 else list(k) * 2):
                text["-".join(p)] = k
        labelled = []
        for a in notes:
            expect(a.get_text() in text, "label %r names no common pair", a.get_text())
            k = text[a.get_text()]
            expect(k not in labelled, "pair %s is labelled twice", sorted(k))
            expect(close(a.xy[0], t1[k]) and close(a.xy[1], t2[k]), "label %s points to %r instead of %r", a.get_text(), a.xy,
                   (t1[k], t2[k]))
            labelled.append(k)
        gaps = any(k in t2 and None in (t1[k], t2[k]) for k in t1)      # a depth is missing: its label is invisible
        expect(len(labelled) == min(n_labels, len(common)) or (gaps and len(labelled) <= n_labels), "%d labels, %d requested for %d pairs", len(labelled), n_labels,
               len(common))
        s = lambda k: t1[k] if asc1 else -t1[k]
        for k in common:
            if k not in labelled and not gaps:
                for l in labelled:
                    expect(s(l) <= s(k) + 1e-12, "pair %s (%r) is labelled, the stronger pair %s (%r) is not", sorted(l), t1[l],
                           sorted(k), t1[k])
        expect(ax.xaxis_inverted() == asc1, "x axis inverted: %r for a measure where smaller is stronger: %r",
               ax.xaxis_inverted(), asc1)
        expect(ax.yaxis_inverted() == asc2, "y axis inverted: %r for a measure where smaller is stronger: %r",
               ax.yaxis_inverted(), asc2)
        expect(ax.get_xlabel() == m1.method and ax.get_ylabel() == m2.method, "axes are named %r and %r", ax.get_xlabel(),
               ax.get_ylabel())
        boxes = [t.get_text() for t in ax.texts if not isinstance(t, Annotation)]
        if box:
            want, _, same = expected(m1, m2)
            expect(len(boxes) == 1, "%d correlation boxes", len(boxes))
            found = {}
            for line in boxes[0].splitlines():
                if "=" in line:
                    k, v = line.split("=")
                    found[k.strip().lower()] = float(v)
            expect(set(found) == {"pearson", "kendall", "spearman"}, "correlation box lists %r", sorted(found))
            for k, v in found.items():
                if k == "pearson" and not same:
                    continue
                if want[k] is None:
                    expect(v != v, "box shows %s %r", k, v)
                else:
                    expect(abs(v - want[k]) <= 0.0005 + 1e-9, "box shows %s %r, is %r", k, v, want[k])
        else:
            expect(not boxes, "an unrequested box %r", boxes)
        plt.close("all")
        ctx.trace()
        ctx.state((case[1:4], tuple(sorted(pts))))
        if len(set(pts)) > 1:
            ctx.nt(case)
        ctx.sample = {"points": pts, "labels": [a.get_text() for a in notes]}
