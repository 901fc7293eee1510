"""C32: every documented plot option changes exactly what it documents, alone, in pairs and through the summary."""
import itertools

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
from matplotlib import colors as mcolors
from matplotlib.collections import LineCollection, PathCollection, QuadMesh
from matplotlib.contour import ContourSet
from matplotlib.markers import MarkerStyle
from matplotlib.patches import FancyArrowPatch, Rectangle

from .. import env, figs, fitted
from ..core import expect
from ..domain import close
from . import plots

NONE = object()
COLORS7 = ["black", "red", "#00ff00", "blue", "#123456", "orange", "pink"]
SHAPES7 = ["s", "x", "D", "v", "o", "^", "*"]
# option -> values; the readers below say what it must change
HEAT = {"interaction_color_map": ("Reds", ["#ffffff", "#ff0000", "#00ff00"]), "importance_color_map": ("viridis", "OBJECT"),
        "annot_fmt": (".1f", ".2e"), "linewidths": (0, 3.5), "linecolor": ("black", "#336699"), "cbar_shrink": (0.5, 1.0)}
GRAPH = {"n_highest_with_labels": (0, 1, 50), "edge_color": ("red", "#123456"), "node_color": ("blue", "#abcdef"),
         "node_size": (300, 5000), "font_color": ("red", "#010203"), "font_weight": ("normal", "light"), "font_size": (4, 17),
         "threshold_relevant_interaction": ("lowest", "middle", "highest", "zero")}
BARS = {"top_k": (1, 2, 1000), "color": ("red", "#0a0b0c")}
COND = {"top_k": (1, 3, 1000), "color": ("red", "#0a0b0c"), "cmap": ("Reds", "viridis")}
LOLLI = {"max_trees": (0.5, 1.0), "colors": (COLORS7, COLORS7[::-1]), "shapes": (SHAPES7, SHAPES7[::-1]), "max_depth": (2, 3),
         "label_threshold": (0.0, 0.8), "labels": (False,), "scale": ("log",)}
VIS = {"heatmap": HEAT, "graph": GRAPH, "bar_chart": BARS, "bar_chart_ova": BARS, "bar_chart_conditional": COND, "lollipop": LOLLI}
COMMON = {"title": ("Some title", ""), "figsize": ((3, 4), (11, 5))}
RGBA = mcolors.to_rgba


def same_color(a, b, tol=1e-6):
    return np.allclose(np.asarray(a, float)[..., :3], np.asarray(RGBA(b) if isinstance(b, str) else b, float)[..., :3], atol=tol)


def cmap_of(v):
    if v == "OBJECT":
        return matplotlib.colormaps["cividis"]
    return mcolors.ListedColormap(v) if isinstance(v, list) else matplotlib.colormaps[v]


def given(v):
    return cmap_of(v) if v == "OBJECT" else v


def same_map(got, want):
    x = (0.0, 0.2, 0.5, 0.8, 1.0)
    return np.allclose(got(x), want(x), atol=0.02) or (isinstance(want, mcolors.ListedColormap) and want.N < 10 and
                                                        np.allclose(got((0.0, 1.0)), want((0.0, 1.0)), atol=0.02))


class View:
    """What the style aspects of one axes are, read from its artists."""

    @staticmethod
    def heatmap(ax, fig):
        out = {"cmaps": {}, "linewidths": set(), "linecolors": [], "shrink": []}
        for q in ax.collections:
            if not isinstance(q, QuadMesh):
                continue
            n = int(round(np.sqrt(np.size(q.get_array()))))
            mask = np.ma.getmaskarray(np.ma.masked_invalid(np.ma.asarray(q.get_array(), float))).reshape(n, n)
            shown = ~mask
            if not shown.any():
                continue
            kind = "importance" if (shown & np.eye(n, dtype=bool)).any() else "interaction"
            out["cmaps"][kind] = q.get_cmap()
            out["linewidths"] |= {round(float(w), 9) for w in np.ravel(q.get_linewidths())}
            out["linecolors"].append(tuple(np.ravel(q.get_edgecolor())[:3].round(6)))
        for a in fig.axes:
            if a.get_label() == "<colorbar>" and abs(a.get_position(original=True).y0 + a.get_position(original=True).height / 2 -
                                                     ax.get_position(original=True).y0 - ax.get_position(original=True).height / 2) < 0.02:
                out["shrink"].append(round(a.get_position(original=True).height / ax.get_position(original=True).height, 6))
        return out

    @staticmethod
    def graph(ax, fig):
        nodes, edges, free = figs.graph_content(ax)
        pc = [c for c in ax.collections if isinstance(c, PathCollection)][0]
        ec = []
        for c in ax.collections:
            if isinstance(c, LineCollection):
                ec += [tuple(x[:3].round(6)) for x in np.atleast_2d(c.get_edgecolor())]
        for p in ax.patches:
            if isinstance(p, FancyArrowPatch):
                ec.append(tuple(np.round(p.get_edgecolor()[:3], 6)))
        node_texts = [t for t in ax.texts if t.get_text() in nodes and
                      np.allclose(t.get_position(), nodes[t.get_text()][0], atol=1e-6)]
        other = [t for t in ax.texts if t not in node_texts]
        return {"node_colors": {tuple(x[:3].round(6)) for x in np.atleast_2d(pc.get_facecolor())}, "edge_colors": set(ec),
                "font_color": {tuple(np.round(RGBA(t.get_color())[:3], 6)) for t in ax.texts},
                "font_weight": {t.get_fontweight() for t in ax.texts}, "font_size": {float(t.get_fontsize()) for t in node_texts},
                "label_size": {float(t.get_fontsize()) for t in other}}

    @staticmethod
    def bars(ax, fig):
        return {"colors": {tuple(np.round(p.get_facecolor()[:3], 6)) for p in ax.patches if isinstance(p, Rectangle)}}

    @staticmethod
    def conditional(ax, fig):
        line = [c for c in ax.collections if isinstance(c, LineCollection)]
        pts = [c for c in ax.collections if isinstance(c, PathCollection)]
        return {"lines": {tuple(x[:3].round(6)) for c in line for x in np.atleast_2d(c.get_edgecolor())},
                "points": {tuple(x[:3].round(6)) for c in pts for x in np.atleast_2d(c.get_facecolor()) if len(x)}}

    @staticmethod
    def lollipop(ax, fig):
        pcs = [c for c in ax.collections if isinstance(c, PathCollection)]
        return {"colors": [tuple(np.atleast_2d(c.get_facecolor())[0][:3].round(6)) if len(c.get_facecolor()) else
                           tuple(np.atleast_2d(c.get_edgecolor())[0][:3].round(6)) for c in pcs if len(c.get_offsets())],
                "shapes": [tuple(np.ravel(c.get_paths()[0].vertices).round(6)) for c in pcs if len(c.get_offsets())],
                "line": {str(l.get_color()) for l in ax.lines}, "scale": ax.get_xscale()}


def rgb(c):
    return tuple(np.round(RGBA(c)[:3], 6))


def marker(s):
    m = MarkerStyle(s)
    return tuple(np.ravel(m.get_path().transformed(m.get_transform()).vertices).round(6))


def all_in(got, want, what):
    expect(set(got) <= {want}, "%s: %r instead of %r", what, sorted(got), want)


def check_axes(vis, m, spec, ax, fig, opts, base):
    """opts: the options given for this plot; base: style aspects of the same plot without options."""
    o = dict(opts)
    if "title" in o:
        expect(ax.get_title() == o["title"], "title is %r instead of %r", ax.get_title(), o["title"])
    if vis == "heatmap":
        plots.check_heatmap(m, ax, spec, o.get("annot_fmt", ".3f"), False)
        s = View.heatmap(ax, fig)
        for k, cm in s["cmaps"].items():
            name = k + "_color_map"
            want = cmap_of(o[name]) if name in o else base["cmaps"][k]
            expect(same_map(cm, want), "colours of the %ss are %s", k, cm.name)
        expect(s["linewidths"] <= ({float(o["linewidths"])} if "linewidths" in o else base["linewidths"]), "lines are %r wide",
               s["linewidths"])
        for c in s["linecolors"]:
            expect(c == (rgb(o["linecolor"]) if "linecolor" in o else base["linecolors"][0]), "lines are coloured %r", c)
        want = [o["cbar_shrink"]] * 2 if "cbar_shrink" in o else base["shrink"]
        expect(len(s["shrink"]) == len(want) and all(close(a, b, 1e-3) for a, b in zip(s["shrink"], want)),
               "colour bars have %r of the height of the plot instead of %r", s["shrink"], want)
    elif vis == "graph":
        vals = sorted(set(plots.reported(m).values()))
        th = {"lowest": vals[0], "middle": vals[len(vals) // 2], "highest": vals[-1], "zero": 0}
        th = th[o["threshold_relevant_interaction"]] if "threshold_relevant_interaction" in o else plots.DEFAULT_THRESHOLD[spec[0]]
        plots.check_graph(m, ax, th, o.get("n_highest_with_labels", 5), 3 if spec[0] == "C" else 20, o.get("node_size", 1800))
        s = View.graph(ax, fig)
        for aspect, name, f in (("node_colors", "node_color", rgb), ("edge_colors", "edge_color", rgb),
                                ("font_color", "font_color", rgb), ("font_weight", "font_weight", str),
                                ("font_size", "font_size", float)):
            want = {f(o[name])} if name in o else base[aspect]
            expect(s[aspect] <= want, "%s: %r instead of %r", name, s[aspect], want)
    elif vis in ("bar_chart", "bar_chart_ova"):
        rows = plots.pair_rows if vis == "bar_chart" else plots.ova_rows
        plots.same_bars(figs.barh_content(ax), rows(m, o.get("top_k", 10)), vis)
        s = View.bars(ax, fig)
        expect(s["colors"] <= ({rgb(o["color"])} if "color" in o else base["colors"]), "bars are coloured %r", s["colors"])
    elif vis == "bar_chart_conditional":
        plots.check_conditional(m, ax, o.get("top_k", 15), cmap_of(o.get("cmap", "Purples")))
        s = View.conditional(ax, fig)
        for k in ("lines", "points"):
            expect(s[k] <= ({rgb(o["color"])} if "color" in o else base[k]), "%s are coloured %r", k, s[k])
    elif vis == "lollipop":
        plots.check_lollipop(m, ax, o.get("max_trees", 0.2), o.get("max_depth", 1), o.get("labels", True),
                             o.get("label_threshold", 0.1))
        s = View.lollipop(ax, fig)
        depth = o.get("max_depth", 1)
        col = [rgb(c) for c in o.get("colors", base["palette"])][:depth + 1]
        sh = [marker(c) for c in o.get("shapes", base["markers"])][:depth + 1]
        it = iter(zip(col, sh))
        for c, v in zip(s["colors"], s["shapes"]):      # in order of depth, depths without splits have no points
            expect(any((c, v) == x for x in it), "splits are drawn with colour %r and shape %r", c, v[:8])
        expect({rgb(c) for c in s["line"]} <= {col[0]}, "the line of the roots is coloured %r", s["line"])
        expect(s["scale"] == o.get("scale", "linear"), "the scale is %s", s["scale"])


def call_options(m, opts):
    """Options as handed to the library."""
    out = {}
    vals = sorted(set(plots.reported(m).values()))
    for k, v in opts:
        if k == "threshold_relevant_interaction":
            v = {"lowest": vals[0], "middle": vals[len(vals) // 2], "highest": vals[-1], "zero": 0}[v]
        out[k] = list(v) if isinstance(v, list) else given(v)
    return out


def subsets(table, size):
    for r in range(1, size + 1):
        for names in itertools.combinations(sorted(table), r):
            for values in itertools.product(*(range(len(table[n])) for n in names)):
                yield tuple(zip(names, values))


def specs():
    """One explanation per method and shape, small enough to draw quickly."""
    out = [("F", 3, 0, "gen2", None, 0), ("F", 4, 0, "gen0", None, 1), ("U", 3, 1, "gen4", None, 2), ("G", 4, 0, "gen6", None, 3),
           ("S", 3, 0, "gen8", None, 0)]
    f = [s for s in plots.forest_specs(True) if s[1] < 16]       # in small figures seaborn leaves out labels of long axes
    out += [f[len(f) // 2], f[-1]]
    b = [s for s in plots.boosted_specs(True) if s[1][1][0] not in ("many", "deep") and s[1][1][:2] != ("wide", 17)]
    for pkg in ("xgb", "lgb"):
        for metric in ("sum_gain", "mean_depth"):
            c = [s for s in b if s[1][0] == pkg and plots.boosted.C13.grid[pkg][s[1][4]][0] == metric and s[1][1][0] in ("big", "wide")]
            c = c or [s for s in b if s[1][0] == pkg and plots.boosted.C13.grid[pkg][s[1][4]][0] == metric]
            out.append(c[len(c) // 2])
    return out


class C32:
    id = "C32"
    rule = ("a case is an explanation, a plot and a set of options with values; non-trivial: two or more options, by distinct "
            "case")
    assumptions = ["figures are read from the artists of the Agg backend", "options without documentation are not given",
                   "defaults of style options are whatever the same plot without options shows"]
    chunk = 40

    def bound(self, tier):
        return ("%d explanations of all methods x every plot x all documented options, every value of a small set, all combinations "
                "of up to %d options, all at once, and all of them through the summary (per plot, all pairs of plots); kind, colours and size of profiles and zenplots" %
                (len(specs()), 2 if tier == "quick" else 3))

    def prepare(self, tier):
        self.specs = specs()

    def cases(self, tier):
        self.specs = specs()
        out = []
        for i, sp in enumerate(self.specs):
            vis = ["heatmap", "graph", "bar_chart"] + (["bar_chart_ova"] if sp[0] in "FU" else []) + \
                (["bar_chart_conditional"] if sp[0] == "C" else []) + (["lollipop"] if sp[0] == "B" else [])
            for v in vis:
                table = dict(VIS[v], **COMMON)
                out.append((i, v, ()))
                for s in subsets(table, 2 if tier == "quick" else 3):
                    out.append((i, v, s))
                for k in (0, 1):
                    out.append((i, v, tuple((n, min(k, len(table[n]) - 1)) for n in sorted(table))))
            if sp[0] in "FUG":
                for v, kind, cmap, size in itertools.product(("profile", "profile1", "zenplot"), (None, "contour", "colormesh"),
                                                             (None, "viridis", "Greys_r"), (None, (3, 4))):
                    if v != "profile1" or (kind is None and cmap is None):
                        out.append((i, v, (("kind", kind), ("cmap", cmap), ("figsize", size))))
            parts = [v for v in ("heatmap", "graph", "bar_chart", "bar_chart_ova") if v in vis]
            for chosen in itertools.chain([()], ((p,) for p in parts), itertools.combinations(parts, 2), [tuple(parts)]):
                for k in (0, 1):
                    out.append((i, "summary", tuple((p, k) for p in chosen)))
            for p in parts:
                table = dict(VIS[p], title=COMMON["title"])
                for s in subsets(table, 1):
                    out.append((i, "summary", (p, s)))
        return out

    def explain(self, i):
        if getattr(self, "have", (None,))[0] != i:
            self.have = (i, plots.fit_spec(self.specs[i]), {})
        return self.have[1], self.have[2]

    def base(self, i, vis):
        m, memo = self.explain(i)
        if vis not in memo:
            fig = figs.one_figure(lambda: m.plot(vis))
            fig.canvas.draw()
            ax = fig.axes[0]
            read = {"heatmap": View.heatmap, "graph": View.graph, "bar_chart": View.bars, "bar_chart_ova": View.bars,
                    "bar_chart_conditional": View.conditional, "lollipop": View.lollipop}[vis]
            memo[vis] = read(ax, fig)
            if vis == "lollipop":
                memo[vis]["palette"] = ["#e41a1c", "#377eb8", "#4daf4a", "#984ea3", "#ff7f00", "#ffff33"]
                memo[vis]["markers"] = ["o", ",", "v", "^", "<", ">"]
            plt.close(fig)
        return memo[vis]

    def run(self, case, ctx):
        i, vis, chosen = case
        if not hasattr(self, "specs"):
            self.specs = specs()
        spec = self.specs[i]
        with fitted.quiet():
            m, _ = self.explain(i)
            if vis in ("profile", "profile1", "zenplot"):
                self.profile(m, vis, dict(chosen), ctx)
            elif vis == "summary":
                self.summary(m, i, spec, chosen, ctx)
            else:
                table = dict(VIS[vis], **COMMON)
                opts = [(n, table[n][k]) for n, k in chosen]
                base = self.base(i, vis)
                fig = figs.one_figure(lambda: m.plot(vis, **call_options(m, opts)))
                fig.canvas.draw()
                check_axes(vis, m, spec, fig.axes[0], fig, opts, base)
                size = dict(opts).get("figsize", (8, 6))
                expect(np.allclose(fig.get_size_inches(), size), "the figure is %r large instead of %r", fig.get_size_inches(), size)
                plt.close(fig)
                ctx.step()
        ctx.trace()
        ctx.state(case)
        if len(chosen) > 1:
            ctx.nt(case)
        ctx.sample = {"plot": vis, "options": repr(chosen)}

    def profile(self, m, vis, o, ctx):
        kw = {k: v for k, v in o.items() if v is not None}
        f = list(m.features_included)
        if vis == "zenplot":
            fig = figs.one_figure(lambda: m.plot_zenplot(3, **kw))
        else:
            fig = figs.one_figure(lambda: m.plot_profile(*(f[1:] if vis == "profile1" else f)[:1 if vis == "profile1" else 2], **kw))
        size = o["figsize"] or fig.get_size_inches()
        expect(np.allclose(fig.get_size_inches(), size), "the figure is %r large instead of %r", fig.get_size_inches(), size)
        if vis != "profile1":
            panels = [a for a in fig.axes if a.get_label() != "<colorbar>" and a.collections and
                      any(isinstance(c, (QuadMesh, ContourSet)) and np.size(c.get_array()) for c in a.collections)]
            default = {"zenplot": ("colormesh", "RdYlBu_r"), "profile": ("colormesh", "RdYlBu_r")}[vis]
            kind, cmap = o["kind"] or default[0], cmap_of(o["cmap"] or default[1])
            seen = 0
            for a in panels:
                for c in a.collections:
                    if isinstance(c, QuadMesh) and a.get_xlabel() + a.get_ylabel() + a.get_title() != "PD value":
                        expect(kind == "colormesh", "a colour mesh is drawn instead of a %s", kind)
                    elif isinstance(c, ContourSet):
                        expect(kind == "contour", "contours are drawn instead of a %s", kind)
                        if not c.filled:
                            continue
                    else:
                        continue
                    expect(same_map(c.get_cmap(), cmap), "colours are %s", c.get_cmap().name)
                    seen += 1
            expect(seen > 0, "no panel is drawn")
        plt.close(fig)
        ctx.step()

    def summary(self, m, i, spec, chosen, ctx):
        per = {}
        if chosen and isinstance(chosen[0], str):
            p, s = chosen
            table = dict(VIS[p], title=COMMON["title"])
            per[p] = [(n, table[n][k]) for n, k in s]
        else:
            for p, k in chosen:
                table = dict(VIS[p], title=("title of " + p,))
                per[p] = [(n, table[n][min(k, len(table[n]) - 1)]) for n in sorted(table)]
        bases = {v: self.base(i, v) for v in ("heatmap", "graph", "bar_chart")}
        has_ova = getattr(m, "ova", None) is not None
        if has_ova:
            bases["bar_chart_ova"] = self.base(i, "bar_chart_ova")
        fig = figs.one_figure(lambda: m.plot("summary", **{p: call_options(m, o) for p, o in per.items()}))
        fig.canvas.draw()
        axes = [a for a in fig.axes if a.get_label() != "<colorbar>"]
        h = [a for a in axes if any(isinstance(c, QuadMesh) for c in a.collections)]
        g = [a for a in axes if any(isinstance(c, PathCollection) for c in a.collections)]
        b = [a for a in plots.bars_in(fig) if a in axes]
        expect(len(h) == 1 and len(g) == 1 and len(b) == 1 + has_ova, "summary has %d heatmaps, %d graphs, %d bar charts", len(h),
               len(g), len(b))
        if has_ova:
            names = [x[0] for x in figs.barh_content(b[0])]
            if not all(":" in x for x in names) or set(names) <= set(m.ova["Feature"]):
                b.reverse()
        for v, ax in [("heatmap", h[0]), ("graph", g[0]), ("bar_chart", b[0])] + ([("bar_chart_ova", b[1])] if has_ova else []):
            base = dict(bases[v])
            if v == "heatmap":
                base["shrink"] = [r for r in base["shrink"]]
            check_axes(v, m, spec, ax, fig, per.get(v, ()), base)
            ctx.step()
        plt.close(fig)
