"""C22-C24: every kind of plot of enumerated explanations, read back from the matplotlib artists."""
import itertools
import math

import matplotlib.pyplot as plt
import numpy as np
import seaborn as sns
from matplotlib import colors as mcolors
from matplotlib.collections import PathCollection, QuadMesh
from matplotlib.patches import Rectangle

from .. import env, figs, fitted
from .. import treegen as tg
from ..core import expect
from ..domain import TableModel, close, frame, generic, make_table
from . import boosted, forests
from .formulas import Ref, shape_values, spread
from .tables import WIDE

NAMESETS = (("b", "a", "c", "d"), ("x2", "X1", "x10", "x1"), ("f:g", "f", "g", "h i"), ("Zed", "alpha", "mid", "B"))
ROWS = {2: [((0, 0), (1, 1), (0, 1)), ((1, 0), (0, 1))],
        3: [((0, 1, 1), (1, 1, 0), (1, 0, 1), (0, 0, 0)), ((0, 0, 1), (1, 1, 0), (1, 0, 0))],
        4: [((0, 1, 1, 0), (1, 1, 0, 0), (1, 0, 1, 1), (0, 0, 0, 1), (1, 1, 1, 1))]}


def agnostic_specs(quick):
    """(code, number of features, rows, model, feature selection, name set)"""
    out = []
    for nf in (2, 3, 4):
        models = ["gen%d" % s for s in range(0, 12 if quick else 40, 2)] + ["add", "one", "prod", "three", "zero", "tie"]
        for code in ("F", "U", "G", "S"):
            for ri in range(len(ROWS[nf])):
                for mi, m in enumerate(models):
                    if m == "three" and nf < 3:
                        continue
                    sel = None
                    if nf > 2:
                        sels = [None] + list(itertools.permutations(range(nf), 2))[:6:2] + \
                            list(itertools.permutations(range(nf), 3))[:6:2] + [tuple(reversed(range(nf)))]
                        sel = sels[(mi + ri) % len(sels)]
                    out.append((code, nf, ri, m, sel, (mi + nf) % len(NAMESETS)))
    # large and tiny results
    for code in ("F", "U", "G", "S"):
        for i, (nf, m) in enumerate(itertools.product((2, 3, 4), ("big3", "big8", "big17", "tny3", "tny12"))):
            out.append((code, nf, 0, m, None, i % len(NAMESETS)))
    # more results than any default shows: 21 and 66 pairs, 12 features
    for code in ("F", "U", "G", "S"):
        for nf, shape in ((7, "gen"), (7, "sparse"), (12, "gen"), (12, "ties")) if quick else itertools.product(
                (5, 7, 12), ("gen", "add", "ties", "sparse")):
            out.append((code, nf, "wide", shape, None, 0))
            if not quick or nf == 7:
                out.append((code, nf, "wide", shape, tuple(range(1, nf))[::-1], 0))
    return out


def forest_specs(quick):
    fs = [c for c in forests.enumerate_forests("quick") if 2 <= sum(tg.size(t) for t, _ in c[1]) <= (4 if quick else 5)]
    fs = [c for c in fs if any(len({n[0] for n in tg.splits(t)}) > 1 for t, _ in c[1])]
    step = max(1, len(fs) // (260 if quick else 2000))
    # round robin over the enumeration, keeping every size class
    pick = fs[:60] + fs[60::step]
    wide = forests.wide_forests("quick")
    pick += wide[::4] + wide[-2:] if quick else wide
    return [("C", c[0], c[1], c[2], i % len(NAMESETS)) for i, c in enumerate(pick)]


def boosted_specs(quick):
    cases = [c for c in boosted.enumerate_cases("quick", {"xgb": 10, "lgb": 6}) if c[1][0] != "real"]
    out = []
    for i, c in enumerate(cases):
        if isinstance(c[1][0], int) and i % (9 if quick else 2):
            continue
        if c[1][0] == "big" and i % (3 if quick else 1):
            continue
        imps = [x for x in boosted.IMP if c[0] == "xgb" or x not in boosted.COVER]
        out.append(("B", c, imps[i % len(imps)], i % len(NAMESETS)))
    return out


def fit_spec(spec):
    """-> fitted method or None if nothing can be plotted (no interaction reported)"""
    with fitted.quiet():
        if spec[0] == "C":
            _, nf, ts, kind, ns = spec
            m = env.ConditionalMinimalDepthMethod()
            m.fit(tg.forest(WIDE[:nf] if nf > 4 else NAMESETS[ns][:nf], ts, kind))
            return m
        if spec[0] == "B":
            _, case, imp, ns = spec
            metric, only_def = boosted.C13.grid[case[0]][case[4]]
            model, names, trees = boosted.resolve(case)
            m = env.SplitScoreMethod()
            m.fit(model, interaction_selected_metric=metric, importance_selected_metric=imp,
                  only_def_interactions=only_def)
            m.trees_of_case, m.names_of_case = trees, names
            return m if len(m.ovo) else None
        code, nf, ri, mname, sel, ns = spec
        grid = list(itertools.product((0, 1), repeat=nf))
        if ri == "wide":
            names, rows, ri = WIDE[:nf], [grid[i] for i in spread(6, len(grid))], 0
        else:
            names, rows = NAMESETS[ns][:nf], ROWS[nf][ri]
        f = {"add": lambda r: 0.5 * r[0] - 0.25 * r[-1], "one": lambda r: 2.0 * r[-1], "prod": lambda r: r[0] * r[1] / 4.0,
             "three": lambda r: r[0] * r[1] * r[2] * 3.0 - r[2], "zero": lambda r: 1.0,
             "tie": lambda r: float(sum(r)) ** 2}.get(mname)
        if spec[2] == "wide":
            vals = [v / 100.0 for v in shape_values(mname, grid)]
        elif f is None:
            unit = {"gen": 100.0, "big": 1e-3, "tny": 1e6}[mname[:3]]
            vals = [generic((i * 5 + int(mname[3:])) % 70) / unit for i in range(len(grid))]
        else:
            vals = [f(r) for r in grid]
        table = make_table([(0, 1)] * nf, vals)
        model = TableModel(names, table)
        X = frame(names, rows, "str")
        kw = {} if sel is None else {"features": [names[i] for i in sel]}
        if code in ("F", "U"):
            m = env.FriedmanHStatisticMethod(normalized=code == "F")
            m.fit(model, X, **kw)
        elif code == "G":
            m = env.GreenwellMethod()
            m.fit(model, X, **kw)
        else:
            m = env.SejongOhMethod(random_state=3 + ri)
            m.fit(model, X, np.array([table[r] + (0.1 * i) for i, r in enumerate(rows)]), n_repeat=2, **kw)
        return m


def cols_of(m):
    return ("root_variable", "variable") if "root_variable" in m.ovo.columns else ("Feature 1", "Feature 2")


def reported(m):
    """{(f, g): value} of the non-missing rows, in table order."""
    a, b = cols_of(m)
    return {(x, y): float(v) for x, y, v in zip(m.ovo[a], m.ovo[b], m.ovo[m.method]) if not forests.isnull(v)}


def importance(m):
    return {f: float(v) for f, v in zip(m.feature_importance["Feature"], m.feature_importance["Importance"])}


def is_directed(m):
    return "root_variable" in m.ovo.columns


def smaller_is_stronger(m):
    return is_directed(m) or getattr(m, "metric", None) == "mean_depth"


def importance_smaller_is_stronger(m, spec):
    return is_directed(m) or (spec[0] == "B" and spec[2] in ("mean_depth", "mean_weighted_depth"))


def all_specs(tier):
    quick = tier == "quick"
    out = agnostic_specs(quick) + forest_specs(quick) + boosted_specs(quick)
    return out


# ---------------------------------------------------------------- C22
def check_heatmap(m, ax, spec, fmt=".3f", default_colors=True):
    cells, texts, rows, cols, maps = figs.heatmap_content(ax)
    expect(rows == cols, "rows %r and columns %r are not in the same order", rows, cols)
    expect(len(set(rows)) == len(rows), "a feature has two rows: %r", rows)
    pairs, imp = reported(m), importance(m)
    directed = is_directed(m)
    want = {}
    for (f, g), v in pairs.items():
        if f == g or f not in imp or g not in imp:
            continue
        want[(f, g)] = v
        if not directed and (g, f) not in pairs:
            want[(g, f)] = v
    for f in rows:
        expect(f in imp, "row %s is not a feature with an importance", f)
        want[(f, f)] = imp[f]
    expect(set(f for p in want for f in p) == set(rows), "features %r are shown, results exist for %r", rows,
           sorted(set(f for p in want for f in p)))
    for k in want:
        expect(k in cells, "cell %s is blank, reported value %r", k, want[k])
        expect(close(cells[k], want[k]), "cell %s shows %r, reported %r", k, cells[k], want[k])
    for k in cells:
        expect(k in want, "cell %s shows %r, nothing is reported", k, cells[k])
    for k, t in texts.items():
        expect(k in want and t == format(want[k], fmt), "cell %s is labelled %s, value %r", k, t, want.get(k))
    if default_colors:
        for cmap, mine, norm in maps:
            if not mine:
                continue
            diag = [a == b for a, b in mine]
            expect(all(diag) or not any(diag), "importances and interactions share a colour scale")
            asc = importance_smaller_is_stronger(m, spec) if diag[0] else smaller_is_stronger(m)
            expect(figs.darker_with_value(cmap) == (not asc), "colours of %s run against the measure (%s)",
                   "importances" if diag[0] else "interactions", cmap.name)
            vals = [cells[k] for k in mine]
            expect(norm.vmin <= min(vals) + 1e-12 and norm.vmax >= max(vals) - 1e-12,
                   "the colour scale [%r, %r] does not cover the values %r", norm.vmin, norm.vmax, vals)
    return cells


class PlotCheck:
    chunk = 12
    assumptions = ["figures are read from the artists of the Agg backend; the installed seaborn prints the numbers of the "
                   "first matrix row only, so printed numbers are compared where they are printed",
                   "an explanation without any reported interaction has no interaction plots"]

    def cases(self, tier):
        return all_specs(tier)

    def fitted(self, case, ctx):
        m = fit_spec(case)
        if m is not None:
            imp = importance(m)
            if not any(f != g and f in imp and g in imp for f, g in reported(m)):
                m = None
        if m is None:
            ctx.count("nothing_to_plot")
        return m


class C22(PlotCheck):
    id = "C22"
    rule = ("a case is a fitted explanation (method, model, data, feature selection, names); non-trivial: at least two "
            "different interaction values or a missing value, by distinct displayed matrix")

    def bound(self, tier):
        return ("2-4 features, all five methods: enumerated table models, forests (up to %d splits) and boosted ensembles, "
                "feature selections, four name sets, both option sets; beyond: 5-17 features (21-120 pairs), results of 1e-6 to 1e6" % (4 if tier == "quick" else 5))

    def run(self, case, ctx):
        m = self.fitted(case, ctx)
        if m is None:
            return
        fig = figs.one_figure(lambda: m.plot("heatmap"))
        cells = check_heatmap(m, fig.axes[0], case)
        ctx.step()
        if ctx.tier == "thorough" or hash(repr(case)) % 4 == 0:
            fig = figs.one_figure(lambda: m.plot("heatmap", title="T", annot_fmt=".1f", linewidths=0, cbar_shrink=0.5,
                                                 interaction_color_map="viridis", importance_color_map="plasma"))
            check_heatmap(m, fig.axes[0], case, ".1f", False)
            expect(fig.axes[0].get_title() == "T", "title is %r", fig.axes[0].get_title())
            ctx.step()
        ctx.trace()
        key = tuple(sorted((k, round(v, 9)) for k, v in cells.items()))
        ctx.state((m.method, key))
        off = [v for (a, b), v in cells.items() if a != b]
        if len(set(off)) > 1 or len(off) < len(m.ovo) * 2:
            ctx.nt((m.method, key))
        ctx.sample = {"cells": [(k, round(v, 6)) for k, v in cells.items()]}


# ---------------------------------------------------------------- C23
def check_graph(m, ax, threshold, n_labels=5, max_width=20, node_size=1800):
    nodes, edges, free = figs.graph_content(ax)
    pairs, imp = reported(m), importance(m)
    directed, asc = is_directed(m), smaller_is_stronger(m)
    expect(set(nodes) == set(imp), "nodes %r, features with importance %r", sorted(nodes), sorted(imp))
    top = max(imp.values())
    if top > 0:
        for f, (p, s) in nodes.items():
            expect(close(s, node_size * imp[f] / top, 1e-6), "node %s has area %r, its importance is %r of at most %r", f, s,
                   imp[f], top)
    key = (lambda u, v: (u, v)) if directed else (lambda u, v: frozenset((u, v)))
    strength = {}
    for (f, g), v in pairs.items():
        if f not in imp or g not in imp or f == g:
            continue
        k = key(f, g)
        strength.setdefault(k, []).append(v)
    strength = {k: (min(v) if asc else max(v)) for k, v in strength.items()}
    allp = {key(f, g) for f, g in zip(m.ovo[cols_of(m)[0]], m.ovo[cols_of(m)[1]]) if f in imp and g in imp}
    width = {}
    for u, v, w in edges:
        k = key(u, v)
        if u == v:      # a loop: drawn as a line and as an arc; which of them is not part of the property
            expect(k in allp, "a loop at %s, which is not a reported pair", u)
            continue
        expect(k in allp, "an edge joins %s and %s, which is not a reported pair", u, v)
        expect(k not in width, "two edges join %s and %s", u, v)
        width[k] = w
    relevant = {k: v for k, v in strength.items() if (v <= threshold if asc else v >= threshold)}
    for k in width:
        if k not in relevant:
            expect(width[k] <= 1e-9, "pair %s (%r) is beyond the threshold %r but has an edge of width %r", sorted(k),
                   strength.get(k), threshold, width[k])
    if relevant:
        # pairs involving features without importance still set the scale of the widths
        every = [v for v in pairs.values() if (v <= threshold if asc else v >= threshold)]
        best = min(every) if asc else max(every)
        for k, v in relevant.items():
            if v == best and (asc or v > 0):
                expect(close(width.get(k, 0.0), max_width), "the strongest pair %s has width %r instead of %r", sorted(k),
                       width.get(k), max_width)
        rel = sorted(relevant.items(), key=lambda t: t[1] if asc else -t[1])
        for (k1, v1), (k2, v2) in itertools.combinations(rel, 2):
            expect(width.get(k1, 0.0) >= width.get(k2, 0.0) - 1e-9,
                   "pair %s (%r) has a thinner edge (%r) than pair %s (%r, %r)", sorted(k1), v1, width.get(k1), sorted(k2),
                   v2, width.get(k2))
            if not close(v1, v2):
                expect(width.get(k1, 0.0) > 0, "pair %s (%r) is stronger than %s but invisible", sorted(k1), v1, sorted(k2))
    if not asc:
        cand = [(f, g, v) for (f, g), v in pairs.items() if v >= threshold and v > 0 and f in imp and g in imp]
        cand.sort(key=lambda t: -t[2])
        hidden = any(f not in imp or g not in imp for f, g in pairs)
        want = cand[:n_labels]
        expect(len(free) == len(want) or hidden, "%d edge labels, %d expected", len(free), len(want))
        mid = lambda f, g: tuple(round((a + b) / 2, 5) + 0.0 for a, b in zip(nodes[f][0], nodes[g][0]))
        left = list(cand)
        cut = want[-1][2] if want else None
        for p, t in free:
            q = tuple(round(x, 5) + 0.0 for x in p)
            hit = [c for c in left if all(abs(a - b) < 1e-4 for a, b in zip(mid(c[0], c[1]), q))
                   and abs(float(t) - c[2]) <= 0.005 + 1e-9]
            expect(hit, "label %s at %s belongs to no relevant pair (%s)", t, q, left)
            left.remove(hit[0])
        if not hidden:
            for c in left:
                expect(c not in want or close(c[2], cut) or abs(c[2] - cut) <= 0.01,
                       "pair %s (%r) has no label", c[:2], c[2])
    return nodes, width, relevant


DEFAULT_THRESHOLD = {"F": 0.05, "U": 0.05, "G": 0.05, "S": 0.1, "B": 0.1, "C": 0.6}


class C23(PlotCheck):
    id = "C23"
    rule = ("a case is a fitted explanation drawn with default and with several explicit thresholds; non-trivial: both "
            "relevant and irrelevant pairs or different widths, by distinct (nodes, widths)")

    def bound(self, tier):
        return C22.bound(self, tier) + "; thresholds: default, below all, above all, at each reported value, between"

    def run(self, case, ctx):
        m = self.fitted(case, ctx)
        if m is None:
            return
        maxw = 3 if case[0] == "C" else 20
        runs = [({}, DEFAULT_THRESHOLD[case[0]], 5, maxw, 1800)]
        vals = sorted(set(reported(m).values()))
        ths = [vals[0] - 1, vals[-1] + 1] + vals[:3] + [(a + b) / 2 for a, b in zip(vals, vals[1:])][:2]
        for i, th in enumerate(ths if ctx.tier == "thorough" else ths[:4] + ths[5:6]):
            kw = {"threshold_relevant_interaction": th}
            n, w, s = 5, maxw, 1800
            if i % 2:
                n = kw["n_highest_with_labels"] = 1 + i % 3
                w = kw["max_edge_width"] = 7.5
                s = kw["node_size"] = 600
            runs.append((kw, th, n, w, s))
        if len(m.ovo) > 10:
            runs.append(({"threshold_relevant_interaction": vals[0], "n_highest_with_labels": 40}, vals[0], 40, maxw, 1800))
        for kw, th, n, w, s in runs:
            fig = figs.one_figure(lambda: m.plot("graph", title="T" if kw else "default", **kw))
            nodes, width, relevant = check_graph(m, fig.axes[0], th, n, w, s)
            expect(fig.axes[0].get_title() == ("T" if kw else fig.axes[0].get_title()), "title is %r",
                   fig.axes[0].get_title())
            plt.close(fig)
            ctx.step()
            ctx.trace()
            key = (m.method, tuple(sorted((f, round(s, 6)) for f, (p, s) in nodes.items())),
                   tuple(sorted((tuple(sorted(k)), round(x, 6)) for k, x in width.items())), th)
            ctx.state(key)
            if len(set(width.values())) > 1:
                ctx.nt(key)
        ctx.sample = {"nodes": sorted(nodes), "widths": [(sorted(k), round(x, 3)) for k, x in width.items()]}


# ---------------------------------------------------------------- C24
def same_bars(got, want, what):
    expect([g[0] for g in got] == [w[0] for w in want], "%s: bars %r instead of %r", what, [g[0] for g in got],
           [w[0] for w in want])
    for (l, a), (_, b) in zip(got, want):
        if forests.isnull(b):
            expect(a == 0 or a != a, "%s: bar %s has length %r, no value", what, l, a)
        else:
            expect(close(a, float(b)), "%s: bar %s has length %r, value %r", what, l, a, b)


def pair_rows(m, k):
    a, b = cols_of(m)
    return [(x + ":" + y, v) for x, y, v in list(zip(m.ovo[a], m.ovo[b], m.ovo[m.method]))[:k]]


def ova_rows(m, k):
    return list(zip(m.ova["Feature"], m.ova[m.method]))[:k]


def bars_in(fig):
    return [ax for ax in fig.axes if any(isinstance(p, Rectangle) for p in ax.patches)]


def scale_colors(cmap, counts):
    """Colours of numbers of occurrences: the upper half of a colour map, over the range of the displayed counts."""
    half = mcolors.LinearSegmentedColormap.from_list("half", cmap(np.linspace(0.5, 1, 100)))
    norm = plt.Normalize(min(counts), max(counts))
    return [half(norm(n)) for n in counts]


def check_conditional(m, ax, k, cmap=None):
    want = list(zip(m.ovo["root_variable"], m.ovo["variable"], m.ovo[m.method]))[:k]
    imp = importance(m)
    labels = [t.get_text() for t in ax.get_xticklabels()]
    expect(labels == [a + ":" + b for a, b, _ in want], "conditional chart shows %r instead of %r", labels,
           [a + ":" + b for a, b, _ in want])
    got = {}
    for p in ax.patches:
        if isinstance(p, Rectangle) and p.get_height() == p.get_height():
            i = int(round(p.get_x() + p.get_width() / 2))
            expect(i not in got, "two bars at position %d", i)
            got[i] = p.get_height()
    for i, (a, b, v) in enumerate(want):
        if forests.isnull(v):
            expect(i not in got or got[i] == 0, "bar %s:%s drawn without a value", a, b)
        else:
            expect(i in got and close(got[i], float(v)), "bar %s:%s has height %r, value %r", a, b, got.get(i), v)
    counts = [int(n) for n in m.ovo["n_occurences"]][:k]
    want_colors = scale_colors(cmap or plt.get_cmap("Purples"), counts)
    for p in ax.patches:
        if isinstance(p, Rectangle) and p.get_height() == p.get_height():
            i = int(round(p.get_x() + p.get_width() / 2))
            c = want_colors[i]
            expect(any(np.allclose(p.get_facecolor()[:3], x[:3], atol=0.03) for x in (c, sns.desaturate(c[:3], 0.75))),
                   "bar %s:%s (%d occurrences) has the colour %r instead of %r", want[i][0], want[i][1], counts[i],
                   p.get_facecolor(), c)
    pts = {}
    for c in ax.collections:
        if isinstance(c, PathCollection):
            for x, y in np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan):
                if y == y:
                    pts.setdefault(int(round(x)), []).append(float(y))
    for i, (a, b, v) in enumerate(want):
        if b in imp:
            expect(len(pts.get(i, [])) == 1 and close(pts[i][0], imp[b]), "unconditional depth of %s marked at %r, is %r", b,
                   pts.get(i), imp[b])
        else:
            expect(i not in pts, "a depth is marked for %s, which is not used", b)


def check_lollipop(m, ax, frac, max_depth, labels, label_threshold=0.1):
    trees, names = m.trees_of_case, m.names_of_case
    rows = boosted.split_list(trees)
    n = len(trees)
    shown = [r for r in rows if r[0] < frac * n]
    roots = sorted((float(r[0] + 1), float(r[2])) for r in shown if r[4] == 0)
    inner = sorted((float(r[0] + 1), float(r[2])) for r in shown if 0 < r[4] <= max_depth)
    pts = []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            pts += [(float(x), float(y)) for x, y in np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan)
                    if x == x and y == y]
    key = lambda l: sorted((round(a, 9), round(b, 6)) for a, b in l)
    expect(key(pts) == key(roots + inner), "lollipop shows gains %r, the trees have %r", key(pts), key(roots + inner))
    line = [(float(x), float(y)) for l in ax.lines for x, y in zip(l.get_xdata(), l.get_ydata()) if y == y]
    expect(key(line) == key(roots), "the line joins %r, root gains are %r", line, roots)
    got = sorted((round(float(t.xy[0]), 6), round(float(t.xy[1]), 6), t.get_text()) for t in ax.texts)
    want = []
    if labels:
        top = max([r[1] for r in roots], default=0)
        for r in shown:
            if r[4] == 0 and r[2] >= label_threshold * top:
                want.append((float(r[0] + 1), round(float(r[2]), 6), names[r[1]]))
            elif 0 < r[4] <= max_depth and r[2] > r[6] and r[1] != r[5]:
                want.append((float(r[0] + 1), round(float(r[2]), 6), names[r[5]] + ":" + names[r[1]]))
    expect(got == sorted(want), "lollipop labels %r instead of %r", got, sorted(want))


class C24(PlotCheck):
    id = "C24"
    rule = ("a case is a fitted explanation; for it every applicable bar chart with several top_k, lollipop options and the "
            "summary are drawn; non-trivial: table longer than some top_k, by distinct case")
    chunk = 6

    def bound(self, tier):
        return C22.bound(self, tier) + ("; top_k 1, 2, default, 100; lollipop fractions 0.25/0.5/0.75/1, depths 1-4; summaries "
                                        "with and without options")

    def cases(self, tier):
        q = tier == "quick"
        a, f, b = agnostic_specs(q), forest_specs(q), boosted_specs(q)
        return a + (f[:60] + f[60::2] if q else f) + b

    def run(self, case, ctx):
        m = self.fitted(case, ctx)
        if m is None:
            return
        n = len(m.ovo)
        for k in (None, 1, 2, 100):
            kw = {} if k is None else {"top_k": k, "title": "bars of %d" % k}
            fig = figs.one_figure(lambda: m.plot("bar_chart", **kw))
            same_bars(figs.barh_content(fig.axes[0]), pair_rows(m, k or 10), "bar chart")
            if k is not None:
                expect(fig.axes[0].get_title() == kw["title"], "title is %r", fig.axes[0].get_title())
            plt.close(fig)
            if getattr(m, "ova", None) is not None:
                fig = figs.one_figure(lambda: m.plot("bar_chart_ova", **kw))
                same_bars(figs.barh_content(fig.axes[0]), ova_rows(m, k or 10), "one-vs-all chart")
                if k is not None:
                    expect(fig.axes[0].get_title() == kw["title"], "title is %r", fig.axes[0].get_title())
                plt.close(fig)
            if case[0] == "C":
                fig = figs.one_figure(lambda: m.plot("bar_chart_conditional", **kw))
                check_conditional(m, fig.axes[0], k or 15)
                if k is not None:
                    expect(fig.axes[0].get_title() == kw["title"], "title is %r", fig.axes[0].get_title())
                plt.close(fig)
            ctx.step()
        if case[0] == "B":
            for frac, depth, labels in ((None, None, True), (1.0, 1, True), (0.5, 2, True), (0.25, 4, True), (0.75, 3, False),
                                        (0.5, 1, True), (1.0, 4, True)):
                kw = {} if frac is None else {"max_trees": frac, "max_depth": depth, "labels": labels, "title": "L"}
                if (frac, depth) in ((1.0, 4), (0.5, 1)):
                    kw["label_threshold"] = 0.75
                fig = figs.one_figure(lambda: m.plot("lollipop", **kw))
                check_lollipop(m, fig.axes[0], 0.2 if frac is None else frac, depth or 1, labels,
                               kw.get("label_threshold", 0.1))
                plt.close(fig)
                ctx.step()
        pick = sum(map(ord, repr(case))) % (6 if ctx.tier == "quick" else 2)
        if pick == 0 or (case[0] in "FU" and pick == 1):
            self.summary(m, case, ctx)
        ctx.trace()
        ctx.state(case)
        if n > 1:
            ctx.nt(case)
        ctx.sample = {"rows": pair_rows(m, 4)}

    def summary(self, m, case, ctx):
        for opts in (0, 1):
            heat = {"annot_fmt": ".1f", "title": "H"} if opts else {}
            graph = {"threshold_relevant_interaction": sorted(reported(m).values())[0], "node_size": 500,
                     "n_highest_with_labels": 1, "title": "G"} if opts else {}
            bar = {"top_k": 2, "title": "B"} if opts else {}
            ova = {"top_k": 1, "title": "O"} if opts else {}
            kw = {"heatmap": heat, "graph": graph, "bar_chart": bar, "title": "S"} if opts else {}
            if opts and getattr(m, "ova", None) is not None:
                kw["bar_chart_ova"] = ova
            fig = figs.one_figure(lambda: m.plot("summary", **kw))
            fig.canvas.draw()
            sup = fig._suptitle.get_text() if fig._suptitle is not None else ""
            if opts:
                expect(sup == "S", "summary title is %r", sup)
            axes = [a for a in fig.axes if a.get_label() != "<colorbar>"]
            h = [a for a in axes if any(isinstance(c, QuadMesh) for c in a.collections)]
            g = [a for a in axes if any(isinstance(c, PathCollection) for c in a.collections)]
            b = bars_in(fig)
            b = [a for a in b if a in axes]
            has_ova = getattr(m, "ova", None) is not None
            expect(len(h) == 1 and len(g) == 1 and len(b) == 1 + has_ova, "summary has %d heatmaps, %d graphs, %d bar charts",
                   len(h), len(g), len(b))
            check_heatmap(m, h[0], case, heat.get("annot_fmt", ".3f"))
            check_graph(m, g[0], graph.get("threshold_relevant_interaction", DEFAULT_THRESHOLD[case[0]]),
                        graph.get("n_highest_with_labels", 5), 3 if case[0] == "C" else 20, graph.get("node_size", 1800))
            bars = [figs.barh_content(a) for a in b]
            want = [pair_rows(m, bar.get("top_k", 10))] + ([ova_rows(m, ova.get("top_k", 10))] if has_ova else [])
            if has_ova and [x[0] for x in bars[0]] != [x[0] for x in want[0]]:
                bars.reverse()
                b.reverse()
            for x, w in zip(bars, want):
                same_bars(x, w, "bar chart in the summary")
            if opts:
                expect((h[0].get_title(), g[0].get_title(), b[0].get_title()) == ("H", "G", "B"), "titles %r",
                       (h[0].get_title(), g[0].get_title(), b[0].get_title()))
                if has_ova:
                    expect(b[1].get_title() == "O", "one-vs-all title %r", b[1].get_title())
            plt.close(fig)
            ctx.step()
            ctx.count("summaries")
