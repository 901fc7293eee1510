"""C27: partial dependence profiles and zenplots, read back from the figures."""
import itertools
import math

import matplotlib.pyplot as plt
import numpy as np
from matplotlib.axes import Axes
from matplotlib.collections import QuadMesh
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

from .. import env, figs, fitted
from ..core import expect
from ..domain import TableModel, close, frame, generic, make_table
from .formulas import Ref

NAMES = ("ab", "a", "abd", "b", "abde", "d")      # names that are parts of each other
# values of each feature: different counts, irregular gaps, negatives, floats
DOMS = {"bin": [(0, 1)] * 4, "gaps": [(0, 1, 5), (-3, 2), (0.5, 0.75, 4.0), (10, 20)], "neg": [(-2, -1), (-1, 0, 3), (1, 2), (7, 9)],
        "one": [(4,), (0, 1, 2), (1, 3), (0, 1)]}
BEYOND = {"six": [(0, 1), (-1, 2), (0, 3), (5, 6), (1, 2), (0, 4)],
          "many": [tuple(i * i / 4.0 - 7 for i in range(25)), tuple(3 * i - i % 2 for i in range(22)), (0, 1)]}


def rows_of(kind, nf, variant):
    doms = (DOMS.get(kind) or BEYOND[kind])[:nf]
    if kind == "six":
        g = list(itertools.product(*doms))
        return [g[(i * 29 + i * i * 3 + variant) % len(g)] for i in range(7)]
    # small designs: each value of each feature occurs, no full product
    out = []
    m = max(len(d) for d in doms)
    for i in range(m + variant):
        out.append(tuple(d[(i + variant * j + (i // len(d)) * (j + variant)) % len(d)] for j, d in enumerate(doms)))
    return out


def world(kind, nf, variant, shift):
    cols = NAMES[:nf]
    rows = rows_of(kind, nf, variant)
    doms = [tuple(sorted({r[j] for r in rows})) for j in range(nf)]
    g = list(itertools.product(*doms))
    k = len(g)
    table = make_table(doms, [(generic((i * 7 + shift) % 70) + generic((i // 70 + shift) % 70) / 3.0) / 100.0 for i in range(k)])
    return cols, rows, table


class recorded:
    """Records the data given to contour plots."""

    def __enter__(self):
        self.calls = []
        self.orig = (Axes.contour, Axes.contourf)
        rec = self

        def wrap(fn, name):
            def f(ax, *a, **k):
                rec.calls.append((name, ax, a, dict(k)))
                return fn(ax, *a, **k)
            return f
        Axes.contour, Axes.contourf = wrap(Axes.contour, "contour"), wrap(Axes.contourf, "contourf")
        return self

    def __exit__(self, *a):
        Axes.contour, Axes.contourf = self.orig
        return False


def mesh_cells(q):
    """[(x low, x high, y low, y high, value)]"""
    c = np.asarray(q._coordinates, float)
    arr = np.asarray(q.get_array(), float)
    h, w = c.shape[0] - 1, c.shape[1] - 1
    arr = arr.reshape(h, w)
    out = []
    for i in range(h):
        for j in range(w):
            xs = sorted((c[i, j, 0], c[i, j + 1, 0]))
            ys = sorted((c[i, j, 1], c[i + 1, j, 1]))
            out.append((xs[0], xs[1], ys[0], ys[1], float(arr[i, j])))
    return out, h, w


def blank_ok(ref, fx, x, fy, y):
    """The H-statistic evaluates only combinations that occur in the data; others may be blank."""
    return not any(r[ref.pos[fx]] == x and r[ref.pos[fy]] == y for r in ref.rows)


def check_mesh(q, ref, fx, fy, what):
    """None if the mesh shows the partial dependence of (fx, fy) at the right coordinates, else a description."""
    cells, h, w = mesh_cells(q)
    vx, vy = ref.values(fx), ref.values(fy)
    if (h, w) != (len(vy), len(vx)):
        return "%s: %d x %d cells for %d x %d values" % (what, h, w, len(vy), len(vx))
    for x in vx:
        for y in vy:
            if len(vx) > 1 and len(vy) > 1:
                hit = [c for c in cells if c[0] < x < c[1] and c[2] < y < c[3]]
            else:       # a feature with one value: a degenerate axis
                hit = [c for c in cells if c[0] - 1e-9 <= x <= c[1] + 1e-9 and c[2] - 1e-9 <= y <= c[3] + 1e-9]
            want = float(ref.pd2(fx, x, fy, y))
            if not hit or not any(close(c[4], want) or (c[4] != c[4] and blank_ok(ref, fx, x, fy, y)) for c in hit):
                return "%s: at %s=%r, %s=%r shows %r instead of %r" % (what, fx, x, fy, y, [c[4] for c in hit], want)
    return None


def check_grid(args, ref, fx, fy, what):
    x, y, z = np.asarray(args[0]), np.asarray(args[1]), np.asarray(args[2], float)
    if x.ndim == 2:
        x, y = x[0, :], y[:, 0]
    vx, vy = ref.values(fx), ref.values(fy)
    if [float(v) for v in x] != [float(v) for v in vx] or [float(v) for v in y] != [float(v) for v in vy]:
        return "%s: coordinates %r, %r instead of %r, %r" % (what, list(x), list(y), vx, vy)
    for i, b in enumerate(vy):
        for j, a in enumerate(vx):
            if z[i, j] != z[i, j] and blank_ok(ref, fx, a, fy, b):
                continue
            if not close(float(z[i, j]), float(ref.pd2(fx, a, fy, b))):
                return "%s: at %s=%r, %s=%r shows %r instead of %r" % (what, fx, a, fy, b, float(z[i, j]),
                                                                      float(ref.pd2(fx, a, fy, b)))
    return None


def expected_paths(ovo, method, length):
    """The path of pairs, or None if equal strengths leave it open."""
    rows = list(zip(ovo["Feature 1"], ovo["Feature 2"], ovo[method]))
    vals = [float(r[2]) for r in rows]
    if any(close(a, b) for a, b in itertools.combinations(vals, 2)):
        return None
    rows.sort(key=lambda r: -r[2])
    left = rows[:length + 1]
    cur = left.pop(0)
    cur = (cur[0], cur[1])
    path = [cur]
    while left and len(path) < length:
        nxt = [r for r in left if cur[1] in r[:2]]
        if nxt:
            r = nxt[0]
            cur = (cur[1], r[1] if r[0] == cur[1] else r[0])
        else:
            r = left[0]
            cur = (r[0], r[1])
        left.remove(r)
        path.append(cur)
    return path


def distinct(options, used=frozenset()):
    """Can every panel be given a pair of its own?"""
    if not options:
        return True
    return any(distinct(options[1:], used | {p}) for p in options[0] if p not in used)


class TableRegressor(RegressorMixin, BaseEstimator):
    def __init__(self, cols=None, table=None):
        self.cols = cols
        self.table = table

    def fit(self, X, y=None):
        self.n_features_in_ = len(self.cols)
        self.feature_names_in_ = np.array(self.cols, dtype=object)
        self.is_fitted_ = True
        return self

    def predict(self, X):
        vals = list(zip(*[X[c].tolist() for c in self.cols]))
        return np.array([self.table[v] for v in vals], dtype=float)


class C27:
    id = "C27"
    rule = ("a case is (model, data, method) with every profile, or a zenplot of one length; non-trivial: a pair profile whose "
            "features have different values, or a path of at least two panels, by distinct case")
    assumptions = ["feature values are numbers", "where equal strengths leave the path open, only the set of rules that do not "
                   "depend on it is checked", "contour plots are checked by the grid handed to matplotlib"]
    chunk = 10

    def bound(self, tier):
        return ("4 value sets x %s row designs x %d models, 2-4 features, both methods; all single features and all ordered "
                "pairs of the selected features as mesh and contour; zenplots of all lengths 1..%d; 6 features (15 pairs, lengths up to 20) and features of 22 and 25 values; "
                "PartialDependenceVisualizer on the same worlds" % (("2", 2, 7) if tier == "quick" else ("3", 8, 8)))

    def cases(self, tier):
        quick = tier == "quick"
        out = []
        for nf in (2, 3, 4):
            for kind in DOMS:
                for variant in (0, 1) if quick else (0, 1, 2):
                    for shift in (0, 5) if quick else range(0, 40, 5):
                        for code in "FG":
                            out.append(("profile", nf, kind, variant, shift, code))
                        out.append(("pdv", nf, kind, variant, shift))
        for nf in (2, 3, 4):
            for kind in ("bin", "gaps", "neg") if quick else DOMS:
                for variant in (1, 0):
                    for shift in (0, 3, 11, 17) if quick else range(0, 60, 3):
                        for code in "FG":
                            for length in range(1, 8 if quick else 9):
                                out.append(("zen", nf, kind, variant, shift, code, length, "contour" if (length + shift) % 3 == 0
                                            else "colormesh"))
        # beyond: 15 pairs with long paths, many values
        for shift in (2, 7) if quick else range(0, 30, 3):
            for code in "FG":
                out.append(("profile", 6, "six", 1, shift, code))
                for length in (5, 9, 13, 14, 15, 20):
                    out.append(("zen", 6, "six", 1, shift, code, length, "contour" if length in (9, 15) else "colormesh"))
                for nf in (2, 3):
                    out.append(("profile", nf, "many", 0, shift, code))
                    out.append(("zen", nf, "many", 0, shift, code, 2, "contour" if nf == 2 else "colormesh"))
            out.append(("pdv", 2, "many", 0, shift))
        return out

    def fitted(self, case):
        _, nf, kind, variant, shift, code = case[:6]
        cols, rows, table = world(kind, nf, variant, shift)
        m = env.FriedmanHStatisticMethod() if code == "F" else env.GreenwellMethod()
        feats = None if shift % 2 == 0 else list(reversed(cols))
        with fitted.quiet():
            m.fit(TableModel(cols, table), frame(cols, rows, "str"), features=feats)
        return m, cols, Ref(cols, rows, table)

    def run(self, case, ctx):
        getattr(self, case[0])(case, ctx)
        ctx.trace()

    def profile(self, case, ctx):
        m, cols, ref = self.fitted(case)
        for f in cols:
            fig = figs.one_figure(lambda: m.plot_profile(f))
            ax = fig.axes[0]
            expect(ax.get_xlabel() == f, "profile of %s: x axis is named %r", f, ax.get_xlabel())
            lines = [l for l in ax.lines if len(l.get_xdata()) == len(ref.values(f))]
            expect(len(lines) == 1, "profile of %s: %d lines", f, len(lines))
            x = [float(v) for v in lines[0].get_xdata()]
            y = [float(v) for v in lines[0].get_ydata()]
            expect(x == [float(v) for v in ref.values(f)], "profile of %s: values %r instead of %r", f, x, ref.values(f))
            for v, p in zip(ref.values(f), y):
                expect(close(p, float(ref.pd1(f, v))), "profile of %s at %r shows %r instead of %r", f, v, p, float(ref.pd1(f, v)))
            plt.close(fig)
            ctx.step()
        for f, g in itertools.permutations(cols, 2):
            fig = figs.one_figure(lambda: m.plot_profile(f, g))
            ax = fig.axes[0]
            fx, fy = ax.get_xlabel(), ax.get_ylabel()
            expect({fx, fy} == {f, g}, "profile of %s, %s: axes are named %r and %r", f, g, fx, fy)
            meshes = [c for c in ax.collections if isinstance(c, QuadMesh)]
            expect(len(meshes) == 1, "profile of %s, %s: %d meshes", f, g, len(meshes))
            bad = check_mesh(meshes[0], ref, fx, fy, "profile of %s, %s" % (f, g))
            expect(bad is None, "%s", bad)
            plt.close(fig)
            ctx.step()
            if min(len(ref.values(f)), len(ref.values(g))) < 2:
                continue        # matplotlib draws contours of at least 2 x 2 grids
            with recorded() as rec:
                fig = figs.one_figure(lambda: m.plot_profile(f, g, kind="contour"))
            ax = fig.axes[0]
            fx, fy = ax.get_xlabel(), ax.get_ylabel()
            expect({fx, fy} == {f, g}, "contours of %s, %s: axes are named %r and %r", f, g, fx, fy)
            expect(any(c[0] == "contourf" for c in rec.calls), "no filled contours")
            for name, _, a, k in rec.calls:
                bad = check_grid(a, ref, fx, fy, "%s of %s, %s" % (name, f, g))
                expect(bad is None, "%s", bad)
            plt.close(fig)
            ctx.step()
            if ref.values(f) != ref.values(g):
                ctx.nt((case, f, g))
        ctx.state(case)

    def zen(self, case, ctx):
        length, kind = case[6:]
        m, cols, ref = self.fitted(case)
        if kind == "contour" and any(len(ref.values(c)) < 2 for c in cols):
            kind = "colormesh"
        with recorded() as rec:
            fig = figs.one_figure(lambda: m.plot_zenplot(zenpath_length=length, kind=kind))
        ctx.step()
        draws = []          # (axes, what was drawn)
        if kind == "colormesh":
            for ax in fig.axes:
                for c in ax.collections:
                    if isinstance(c, QuadMesh) and ax.get_label() != "<colorbar>":
                        draws.append((ax, c))
            # the colour bar of a mesh is a mesh as well: it is the axes added last, without panel data
            draws = [d for d in draws if d[0] is not fig.axes[-1]]
        else:
            draws = [(ax, (a, k)) for name, ax, a, k in rec.calls if name == "contourf" and ax is not fig.axes[-1]]
        n = len(m.ovo)
        expect(len(draws) == min(length, n), "%d panels for length %d and %d pairs", len(draws), length, n)
        path = expected_paths(m.ovo, m.method, length)
        seen, scale = [], set()
        strength = {frozenset(p): float(v) for p, v in zip(zip(m.ovo["Feature 1"], m.ovo["Feature 2"]), m.ovo[m.method])}
        for i, (ax, c) in enumerate(draws):
            title, ylab = ax.get_title(), ax.get_ylabel()
            cand = [tuple(path[i]), tuple(reversed(path[i]))] if path is not None else \
                [p for p in itertools.permutations(cols, 2) if frozenset(p) in strength]
            msgs, ok = [], []
            for fx, fy in cand:
                bad = check_mesh(c, ref, fx, fy, "panel %d" % (i + 1)) if kind == "colormesh" else \
                    check_grid(c[0], ref, fx, fy, "panel %d" % (i + 1))
                if bad is None and title not in ("", fx):
                    bad = "panel %d: the x axis is titled %r instead of %r" % (i + 1, title, fx)
                if bad is None and ylab not in ("", fy):
                    bad = "panel %d: the y axis is named %r instead of %r" % (i + 1, ylab, fy)
                if bad is None:
                    ok.append((fx, fy))
                else:
                    msgs.append(bad)
            expect(ok, "expected pair %s: %s", path[i] if path else "any", "; ".join(msgs[:3]))
            expect(title or ylab, "panel %d has no name", i + 1)
            seen.append({frozenset(p) for p in ok})
            if kind == "colormesh":
                lo, hi = c.norm.vmin, c.norm.vmax
            else:
                lo, hi = c[1].get("vmin"), c[1].get("vmax")
            scale.add((round(float(lo), 9), round(float(hi), 9)))
            shown = np.ma.filled(np.ma.asarray(c.get_array() if kind == "colormesh" else c[0][2], float), np.nan)
            vals = [v for v in np.ravel(shown) if v == v]
            expect(lo <= min(vals) + 1e-9 and hi >= max(vals) - 1e-9, "the colour scale [%r, %r] does not cover panel %d", lo, hi,
                   i + 1)
        if path is not None or all(len(ref.values(c)) > 1 for c in cols):     # one-valued features: panels look alike
            expect(distinct(seen), "a pair is shown twice: panels can be %r",
                   [[sorted(p) for p in x] for x in seen])
        expect(len(scale) == 1, "the panels have different colour scales %r", sorted(scale))
        boxes = [tuple(round(v, 6) for v in ax.get_position().bounds) for ax, _ in draws]
        expect(len(set(boxes)) == len(boxes), "panels are drawn on top of each other")
        for a, b in itertools.combinations(boxes, 2):
            ox = min(a[0] + a[2], b[0] + b[2]) - max(a[0], b[0])
            oy = min(a[1] + a[3], b[1] + b[3]) - max(a[1], b[1])
            expect(ox <= 1e-6 or oy <= 1e-6, "two panels overlap")
        key = (case[1:6], tuple(sorted(sorted(p) for p in x)[0][0] for x in seen), length)
        ctx.state(key)
        if path is None:
            ctx.count("path_open")
        elif len(path) > 1:
            ctx.nt(key)
        ctx.sample = {"path": path}

    def pdv(self, case, ctx):
        _, nf, kind, variant, shift = case
        cols, rows, table = world(kind, nf, variant, shift)
        ref = Ref(cols, rows, table)
        X = frame(cols, rows, "str").astype(float)
        tab = {tuple(float(v) for v in k): v for k, v in table.items()}
        v = env.PartialDependenceVisualizer(TableRegressor(cols, tab).fit(X), X)
        for f in cols:
            if len(ref.values(f)) < 2:
                continue
            fig = figs.one_figure(lambda: v.plot([f], title="T"))
            titles = [ax.get_title() for ax in fig.axes]
            expect("T" in titles, "titles %r", titles)
            lines = [l for ax in fig.axes for l in ax.lines if len(l.get_xdata()) == len(ref.values(f))]
            expect(len(lines) == 1, "%d lines", len(lines))
            for x, p in zip(lines[0].get_xdata(), lines[0].get_ydata()):
                expect(float(x) in [float(u) for u in ref.values(f)], "value %r of %s does not occur", x, f)
                expect(close(float(p), float(ref.pd1(f, x))), "partial dependence of %s at %r shown as %r", f, x, p)
            names = [ax.get_xlabel() for ax in fig.axes if lines[0] in ax.lines]
            expect(names == [f], "axis is named %r instead of %s", names, f)
            plt.close(fig)
            ctx.step()
        for f, g in itertools.permutations(cols, 2):
            if min(len(ref.values(f)), len(ref.values(g))) < 2:
                continue
            with recorded() as rec:
                fig = figs.one_figure(lambda: v.plot([(f, g)]))
            calls = [c for c in rec.calls if c[0] == "contourf"]
            expect(len(calls) == 1, "%d contour plots", len(calls))
            ax = calls[0][1]
            expect((ax.get_xlabel(), ax.get_ylabel()) == (f, g), "axes are named %r, %r", ax.get_xlabel(), ax.get_ylabel())
            bad = check_grid(calls[0][2], ref, f, g, "contours")
            expect(bad is None, "%s", bad)
            plt.close(fig)
            ctx.step()
        ctx.state(case)
        ctx.nt(case)
