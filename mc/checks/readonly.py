"""C16: nothing given to the library is modified; histories of plots, look-ups and comparisons leave no trace."""
import itertools
import os
import pickle
import random

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

from .. import env, figs, fitted
from .. import treegen as tg
from ..core import HarnessError, expect
from ..domain import TableModel, frame, generic, grid, make_table
from ..snap import model_snap, snap


def in_fork(fn):
    """fn() evaluated in a fresh copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            import traceback
            traceback.print_exc()
            code = 3
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    return None if status else pickle.loads(data)


# ---------------------------------------------------------------- inputs
def data_frame(kind):
    """(frame, model, target list) ; several column kinds"""
    cols = ("b", "a", "c")
    doms = {"int": [(0, 1), (0, 1, 2), (5, 7)], "mixed": [(0.5, 1.5), ("u", "v"), (True, False)],
            "float": [(0.0, 1.0), (0.25, 0.5), (1.0, 2.0)], "large": [tuple(range(12)), ("u", "v", "w"), (True, False)]}[kind]
    rows = [(0, 1, 1), (1, 1, 0), (1, 0, 1), (0, 0, 0)]
    if kind == "large":
        rows = [(i * 5 % 12, i * i % 3, i // 7 % 2) for i in range(110)]
    rows = [tuple(doms[j][v] for j, v in enumerate(r)) for r in rows]
    g = grid(doms)
    table = make_table(doms, [generic(i * 3 % 70) / 100.0 for i in range(len(g))])
    return cols, rows, table


SEL = (None, ("a", "b"), ("c", "a", "b"), ("b", "c"))


def input_cases(tier):
    out = []
    frames = [(k, i) for k in ("int", "mixed", "float") for i in (("range", "dup", "str") if tier == "quick" else
                                                                 ("range", "dup", "str", "multi", "reversed", "float"))]
    for (k, i), s, n, prog in itertools.product(frames, range(len(SEL)), (None, 2, 4), (False, True)):
        if prog and tier == "quick" and i != "str":
            continue
        for code in ("F", "U", "G"):
            for shared in ((False, True) if n is None else (False,)):
                out.append(("in", code, k, i, s, n, prog, shared))
        out.append(("in", "A", k, i, 0, n, prog, False))
        for yk in ("array", "series", "labels", "int"):
            out.append(("in", "S", k, i, s, n, prog, yk))
    for (k, i), s, prog in itertools.product(frames, range(len(SEL)), (False, True)):
        out += [("in", "D", k, i, s, None, prog, x) for x in (False, True)]
        out += [("in", "M", k, i, s, None, prog, yk) for yk in ("array", "series", "labels", "int")]
    for i, s, n in itertools.product(("range", "dup", "reversed"), (0, 2), (None, 7, 105)):
        for code in ("F", "U", "G", "A"):
            if n != 105 or (code, i) == ("G", "dup"):
                out.append(("in", code, "large", i, 0 if code == "A" else s, n, i == "dup", n is None and s > 0 and code != "A"))
        for yk in ("array", "series", "labels", "int"):
            out.append(("in", "S", "large", i, s, n, i == "dup", yk))
            if n is None:
                out.append(("in", "M", "large", i, s, n, i == "dup", yk))
        if n is None:
            out.append(("in", "D", "large", i, s, n, i == "dup", s > 0))
    return list(dict.fromkeys(out))


def target(values, kind, xindex):
    if kind == "array":
        return np.array(values)
    if kind == "int":
        return np.array([int(round(v * 10)) for v in values])
    if kind == "series":
        return pd.Series(values, name="y")
    return pd.Series(values, index=["q%d" % (i % 3) for i in range(len(values))])


def tree_cases(tier):
    out = []
    packs = [(0,), (1,), (0, 1), (0, 1, 2), (2, 0, 2)]
    for p in packs:
        for form in ("booster", "handler", "twice"):
            for metric in ("sum_gain", "mean_gain", "mean_depth", "sum_cover", "mean_cover"):
                for imp in ("mean_gain", "sum_gain", "mean_depth", "mean_weighted_depth", "root_frequency",
                            "weighted_root_frequency", "sum_cover", "mean_cover"):
                    if tier == "quick" and (form == "twice" or len(p) > 2) and imp not in ("mean_gain", "mean_depth"):
                        continue
                    for only in (True, False):
                        out.append(("X", p, form, metric, imp, only))
                        if "cover" not in metric + imp:
                            out.append(("L", p, form, metric, imp, only))
        for pkg in "XL":
            for feats in (None, ("a",), ("c", "b")):
                for imp in ("mean_gain", "mean_depth", "mean_weighted_depth", "root_frequency"):
                    for given in (False, True):
                        out.append((pkg, p, "importance", feats, imp, given))
        for kind in ("rfr", "rfc", "etr", "etc"):
            out.append(("C", p, kind))
    return [("tree",) + c for c in out]


# ---------------------------------------------------------------- plots
CODES = ("F", "f", "G", "S", "X", "L", "C")


def make(code):
    return fitted.fit("F", calculate_ova=False) if code == "f" else fitted.fit(code)


def ops(code):
    """name -> function(method) drawing at most one figure and using fresh keyword objects; returns the keywords used"""
    heat = dict(title="T", annot_fmt=".1f", interaction_color_map="viridis", importance_color_map="plasma", linewidths=2,
                linecolor="red", cbar_shrink=0.4, figsize=(5, 5))
    graph = dict(title="T", threshold_relevant_interaction=0.0 if code != "C" else 5.0, n_highest_with_labels=1,
                 max_edge_width=4, edge_color="red", node_color="blue", node_size=333, font_color="white",
                 font_weight="normal", font_size=3)
    bar = dict(title="T", top_k=1, color="red", figsize=(4, 4))
    out = {"heatmap": ("heatmap", {}), "heatmap+": ("heatmap", heat), "graph": ("graph", {}), "graph+": ("graph", graph),
           "bar_chart": ("bar_chart", {}), "bar_chart+": ("bar_chart", bar), "summary": ("summary", {}),
           "summary+": ("summary", dict(title="T", figsize=(3, 3),
                                        heatmap={k: v for k, v in heat.items() if k != "figsize"}, graph=dict(graph),
                                        bar_chart={k: v for k, v in bar.items() if k != "figsize"}))}
    if code == "F":
        out["bar_chart_ova"] = ("bar_chart_ova", {})
        out["bar_chart_ova+"] = ("bar_chart_ova", dict(bar))
        out["summary+"][1]["bar_chart_ova"] = {"top_k": 1, "color": "red", "title": "O"}
    if code in "XL":
        out["lollipop"] = ("lollipop", {})
        out["lollipop+"] = ("lollipop", dict(title="T", max_trees=1.0, max_depth=3, label_threshold=0.0, scale="log",
                                             labels=True, colors=["red", "blue", "green", "black", "white", "pink"],
                                             shapes=["o", "v", "^", "<", ">", "s"]))
    if code == "C":
        out["bar_chart_conditional"] = ("bar_chart_conditional", {})
        out["bar_chart_conditional+"] = ("bar_chart_conditional", dict(title="T", top_k=2, cmap="viridis", color="red"))
    if code in "FfG":
        out.update({"profile1": None, "profile2": None, "profile2c": None, "zenplot": None, "zenplot2": None})
    out.update({"value": None, "compare": None, "other": None, "rejected": None})
    return out


def perform(name, spec, m, code):
    """-> (figure or None)"""
    if spec is not None:
        vis, kw = spec
        kw = pickle.loads(pickle.dumps(kw))
        before = snap(kw)
        inner = {k: v for k, v in kw.items() if isinstance(v, (dict, list))}
        fig = figs.one_figure(lambda: m.plot(vis, **kw))
        expect(snap(kw) == before, "%s(%r) changed the options it was given to %r", vis, before, inner)
        return fig
    a, b = "b", "a"
    if name == "profile1":
        return figs.one_figure(lambda: m.plot_profile(a))
    if name == "profile2":
        return figs.one_figure(lambda: m.plot_profile(a, b))
    if name == "profile2c":
        return figs.one_figure(lambda: m.plot_profile(b, a, kind="contour", cmap="viridis", figsize=(3, 3)))
    if name == "zenplot":
        return figs.one_figure(lambda: m.plot_zenplot())
    if name == "zenplot2":
        return figs.one_figure(lambda: m.plot_zenplot(zenpath_length=2, kind="contour", cmap="viridis", figsize=(3, 3)))
    if name == "value":
        for p in itertools.permutations(("b", "a", "c"), 2):
            try:
                m.interaction_value(*p)
            except IndexError:      # a pair the explanation does not know
                pass
        return None
    if name == "compare":
        with figs.newfigs() as f:
            c = env.FeatureInteractionMethodComparator()
            o = fitted.fit("G", shift=11)
            c.summary(m, o)
            c.summary(o, m)
            c.comparison_plot(m, m, n_labels=2)
            c.correlation(m, o)
        for x in f.list:
            plt.close(x)
        return None
    if name == "other":
        with figs.newfigs() as f:
            o = make(code)
            for n2 in ("heatmap+", "graph+", "bar_chart+"):
                perform(n2, ops(code)[n2], o, code)
            fitted.fit("C" if code != "C" else "G").plot("graph")
        for x in f.list:
            plt.close(x)
        return None
    if name == "rejected":
        for v in ("lolliplot", "no_such", "bar_chart_conditional" if code != "C" else "bar_chart_ova"):
            try:
                m.plot(v)
            except env.VisualizationNotSupportedException:
                continue
            expect(False, "plot(%r) was accepted", v)
        return None
    raise KeyError(name)


def reference(code, name):
    random.seed(5)
    m = make(code)
    fig = perform(name, ops(code)[name], m, code)
    return None if fig is None else figs.describe(fig)


class C16:
    id = "C16"
    rule = ("a case is one call with all its inputs observed, or a history of plots / look-ups / comparisons on one fitted "
            "explanation; non-trivial: a call that computes something, or a history of at least two operations that ends in "
            "a figure; by distinct case")
    assumptions = ["a model does not modify the frames it is asked to predict",
                   "figures are compared through their artists (positions, sizes, colours, texts, limits, titles)"]
    chunk = 40

    def bound(self, tier):
        return ("all combinations of 3 column kinds, %d kinds of row labels, 4 feature selections, no/partial/full sampling, "
                "4 target kinds, progress on/off, shared calculators (and data of 110 rows and 12 values) for all model-agnostic explanations; 5 boosted "
                "ensembles x 2 packages x metrics x forms of input; 5 forests x 4 kinds; all histories of up to %d of the "
                "%d-%d operations of each method" % (3 if tier == "quick" else 6, 2 if tier == "quick" else 3,
                                                    min(len(ops(c)) for c in CODES), max(len(ops(c)) for c in CODES)))

    def prepare(self, tier):
        self.ref = {}
        for code in CODES:
            for name in ops(code):
                self.ref[(code, name)] = in_fork(lambda: (reference(code, name),))

    def cases(self, tier):
        out = [("hist", c, (n,)) for c in CODES for n in ops(c)]
        out += input_cases(tier) + tree_cases(tier)
        for c in CODES:
            out += [("hist", c, p) for p in itertools.product(ops(c), repeat=2)]
        if tier == "thorough":
            for c in CODES:
                out += [("hist", c, p) for p in itertools.product(ops(c), repeat=3)]
        return out

    def run(self, case, ctx):
        {"hist": self.history, "in": self.inputs, "tree": self.tree}[case[0]](case, ctx)

    def history(self, case, ctx):
        _, code, names = case
        random.seed(5)
        m = make(code)
        before = fitted.results(m)
        fig = None
        for i, n in enumerate(names):
            random.seed(5)
            fig = perform(n, ops(code)[n], m, code)
            ctx.step()
            diff = fitted.same_results(fitted.results(m), before)
            expect(diff is None, "after %s the explanation's %s differs", names[:i + 1], diff)
            if fig is not None and i < len(names) - 1:
                if i % 2:
                    plt.close(fig)
        ref = self.ref[(code, names[-1])]
        expect(ref is not None, "%s of a fresh explanation fails in a fresh process", names[-1])
        ref = ref[0]
        got = None if fig is None else figs.describe(fig)
        if got != ref:
            expect(False, "%s after %s shows something else than on a fresh explanation: %s", names[-1], names[:-1],
                   figs.first_difference(got, ref))
        ctx.trace()
        ctx.state(case)
        if len(names) > 1 and fig is not None:
            ctx.nt(case)
        ctx.sample = {"operations": list(names)}

    def inputs(self, case, ctx):
        _, code, k, idx, s, n, prog, extra = case
        cols, rows, table = data_frame(k)
        model = TableModel(cols, table)
        X = frame(cols, rows, idx)
        X.columns.name = "cols" if prog else None
        feats = None if SEL[s] is None else list(SEL[s])
        yv = [table[r] + 0.1 * i for i, r in enumerate(rows)]
        y = target(yv, extra, idx) if code in "SM" else None
        batch = 500 if k == "large" else 3
        calc = env.PartialDependenceCalculator(model, X) if extra is True else None
        calc_X = calc.X if calc is not None else None
        before = (snap(X), snap(feats), snap(y), model_snap(model), snap(calc_X))
        with fitted.quiet():
            kw = {} if calc is None else {"pd_calculator": calc}
            if code in "FU":
                env.FriedmanHStatisticMethod(normalized=code == "F", random_state=2).fit(
                    model, X, n=n, features=feats, show_progress=prog, batchsize=batch, **kw)
            elif code == "G":
                env.GreenwellMethod(random_state=2).fit(model, X, n=n, features=feats, show_progress=prog, batchsize=batch, **kw)
            elif code == "A":
                env.AdditivityMeter(random_state=2).fit(model, X, n=n, show_progress=prog, batchsize=batch)
            elif code == "S":
                metric = env.Accuracy() if extra == "int" else env.RMSE()
                env.SejongOhMethod(metric, random_state=2).fit(model, X, y, n=n, n_repeat=2, features=feats,
                                                               show_progress=prog)
            elif code == "D":
                env.PartialDependenceBasedImportance().importance(model, X, features=feats, show_progress=prog, **kw)
            elif code == "M":
                env.PermutationImportance(random_state=2).importance(model, X, y, n_repeat=2, features=feats,
                                                                     show_progress=prog)
        ctx.step()
        after = (snap(X), snap(feats), snap(y), model_snap(model), snap(calc_X))
        for what, a, b in zip(("the data frame", "the feature list", "the target", "the model",
                               "the data of the calculator"), before, after):
            expect(a == b, "%s was changed: %s", what, figs.first_difference(a, b, what))
        ctx.trace()
        ctx.state(case)
        ctx.nt(case)

    def tree(self, case, ctx):
        code, p, rest = case[1], case[2], case[3:]
        if code == "C":
            model = fitted.rf_model(trees=[fitted.RF_TREES[i] for i in p], kind=rest[0])
            before = model_snap(model)
            with fitted.quiet():
                m = env.ConditionalMinimalDepthMethod()
                m.fit(model, show_progress=True)
            expect(model_snap(model) == before, "the forest was changed")
            ctx.step()
            m2 = env.ConditionalMinimalDepthMethod()
            m2.fit(model)
            diff = fitted.same_results(fitted.results(m), fitted.results(m2))
            expect(diff is None, "a second explanation of the same forest differs in %s", diff)
        else:
            booster = fitted.gb_model("xgb" if code == "X" else "lgb", trees=[fitted.GB_TREES[i] for i in p])
            h = env.GBTreesHandler(booster)
            before = (model_snap(booster), model_snap(h))
            form = rest[0]
            with fitted.quiet():
                if form == "importance":
                    _, feats, imp, given = rest
                    f = None if feats is None else list(feats)
                    kw = {"trees_df": h.trees_df} if given else {}
                    for _ in range(2):
                        env.SplitScoreImportance().importance(h, features=f, selected_metric=imp, **kw)
                        expect(f is None or tuple(f) == feats, "the feature list was changed to %r", f)
                        ctx.step()
                else:
                    _, metric, imp, only = rest
                    for r in range(2 if form == "twice" else 1):
                        m = env.SplitScoreMethod()
                        m.fit(booster if form == "booster" else h, show_progress=bool(r), interaction_selected_metric=metric,
                              importance_selected_metric=imp, only_def_interactions=only)
                        ctx.step()
            after = (model_snap(booster), model_snap(h))
            expect(after[0] == before[0], "the booster was changed")
            expect(after[1] == before[1], "the handler was changed: %s", figs.first_difference(after[1], before[1], "handler"))
        ctx.trace()
        ctx.state(case)
        ctx.nt(case)
