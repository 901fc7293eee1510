"""C21: the full table of life-cycle state x operation, and histories of rejected calls."""
import itertools
import random

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

from .. import env, figs, fitted
from ..core import Violation, expect
from ..domain import TableModel
from . import boosted
from .readonly import make

CODES = ("F", "f", "G", "S", "X", "L", "C")
ALL = ("summary", "graph", "bar_chart_ova", "bar_chart", "heatmap", "lollipop", "bar_chart_conditional")
OTHER = ("lolliplot", "bar_chart_ovo", "Heatmap", "HEATMAP", "", "heat", "heatmap ", "interaction_graph", "zenplot", "profile")
BASIC = ("summary", "graph", "bar_chart", "heatmap")
ACCEPTED = {"F": BASIC + ("bar_chart_ova",), "f": BASIC + ("bar_chart_ova",), "G": BASIC, "S": BASIC,
            "X": BASIC + ("lollipop",), "L": BASIC + ("lollipop",), "C": BASIC + ("bar_chart_conditional",)}


def new(code):
    return {"F": env.FriedmanHStatisticMethod, "f": lambda: env.FriedmanHStatisticMethod(normalized=False),
            "G": env.GreenwellMethod, "S": env.SejongOhMethod, "X": env.SplitScoreMethod, "L": env.SplitScoreMethod,
            "C": env.ConditionalMinimalDepthMethod}[code]()


def raises(fn, exc, what):
    """The figures opened by the call are closed; returns how many there were."""
    with figs.newfigs() as f:
        try:
            with fitted.quiet():
                fn()
        except exc:
            ok = True
        except Exception as e:
            raise Violation("%s raised %s (%s) instead of %s" % (what, type(e).__name__, e, exc.__name__))
        else:
            ok = False
    for x in f.list:
        plt.close(x)
    expect(ok, "%s was accepted instead of raising %s", what, exc.__name__)
    return len(f.list)


class Duck:
    """Looks like a booster, comes from no supported package."""
    booster_ = None

    def get_booster(self):
        return self

    def trees_to_dataframe(self):
        return pd.DataFrame()


def unsupported(kind):
    if kind == "forest":
        return fitted.rf_model()
    if kind == "sklearn gb":
        from sklearn.ensemble import GradientBoostingRegressor
        return GradientBoostingRegressor(n_estimators=1).fit(pd.DataFrame({"a": [0, 1, 2], "b": [1, 0, 1]}), [1, 2, 3])
    return {"object": object(), "int": 3, "str": "xgboost", "duck": Duck(), "list": [1], "table": TableModel(("a",), {})}[kind]


UNSUPPORTED = ("forest", "sklearn gb", "object", "int", "str", "duck", "list", "table")


def rejections(code):
    out = ["plot:no_such", "plot:Heatmap", "compare_unfitted", "compare_unfitted2"]
    out += ["plot:" + v for v in ALL if v not in ACCEPTED[code]][:3]
    if code in "FfG":
        out += ["calc_model", "calc_data", "calc_order"]
    if code in "XL":
        out += ["model:forest", "model:object", "model:duck", "metric:sum_cover:mean_gain", "metric:mean_gain:mean_cover",
                "metric:mean_cover:sum_cover", "metric:mean_depth:sum_cover"]
    return out


def reject(m, rej):
    if rej.startswith("plot:"):
        n = raises(lambda: m.plot(rej[5:]), env.VisualizationNotSupportedException, "plot(%r)" % rej[5:])
        expect(n == 0, "a rejected plot opened %d figures", n)
    elif rej == "compare_unfitted":
        raises(lambda: env.FeatureInteractionMethodComparator().summary(m, env.GreenwellMethod()),
               env.MethodNotFittedException, "comparison with an unfitted method")
    elif rej == "compare_unfitted2":
        raises(lambda: env.FeatureInteractionMethodComparator().correlation(env.SplitScoreMethod(), m),
               env.MethodNotFittedException, "comparison of an unfitted method")
    elif rej.startswith("calc"):
        model, X, _ = fitted.toy(3, 17)
        other, X2, _ = fitted.toy(3, 18)
        X2 = X.iloc[::-1] if rej == "calc_order" else X.assign(a=[1, 1, 0, 1, 0])
        c = env.PartialDependenceCalculator(other if rej == "calc_model" else model, X if rej == "calc_model" else X2)
        raises(lambda: m.fit(model, X, pd_calculator=c), ValueError, rej)
    elif rej.startswith("model:"):
        raises(lambda: m.fit(unsupported(rej[6:])), env.ModelNotSupportedException, rej)
    elif rej.startswith("metric:"):
        _, a, b = rej.split(":")
        raises(lambda: m.fit(fitted.gb_model("lgb", 2, [fitted.GB_TREES[0][:1] + (None, None)], ("q", "r")),
                             interaction_selected_metric=a, importance_selected_metric=b), env.MetricNotSupportedException, rej)
    else:
        raise KeyError(rej)


EXPLAINED = ("ovo", "ova", "feature_importance", "full_result", "full_ovo", "raw_result_df", "metric", "method")


def observe(m):
    r = {k: v for k, v in fitted.results(m).items() if k in EXPLAINED}
    vals = {}
    for p in itertools.permutations(sorted(set(m.feature_importance["Feature"])), 2):
        try:
            vals[p] = repr(m.interaction_value(*p))
        except IndexError:
            vals[p] = None
    r["values"] = repr(sorted(vals.items()))
    return r


class C21:
    id = "C21"
    rule = ("a case is one cell of the table (method, state, operation), or a history of rejected calls followed by a plot; "
            "every case is non-trivial (an exception or the absence of one is specified)")
    assumptions = ["'unchanged explanation': result tables, looked-up values and plots"]
    chunk = 40

    def bound(self, tier):
        return ("5 methods (7 variants) x {new, fitted} x 17 visualization names, look-ups and comparisons in both positions; "
                "8 unsupported models x 4 entry points; all 40 metric combinations x 2 packages x 3 forms; all histories of up "
                "to %d rejected calls followed by each accepted visualization%s" % ((2, " (one of them after two calls)") if tier == "quick"
                                                                              else (3, "")))

    def cases(self, tier):
        out = []
        for c in CODES:
            out += [("new", c, o) for o in ALL + OTHER + ("default", "value", "corr1", "corr2", "corrs1", "corrs2", "sum1", "sum2",
                                                          "plot1", "plot2")]
            out += [("fitted", c, v) for v in ALL + OTHER + ("default",)]
        out += [("model", u, where) for u in UNSUPPORTED for where in ("handler", "unify", "fit", "fit_sub")]
        for pkg in ("xgb", "lgb"):
            for form in ("booster", "regressor", "handler"):
                for a in ("sum_gain", "sum_cover", "mean_gain", "mean_cover", "mean_depth"):
                    for b in boosted.IMP:
                        out.append(("metric", pkg, form, a, b))
        out += [("minimal", kind) for kind in ("rfr", "rfc", "etr", "etc")]
        for c in CODES:
            rs = rejections(c)
            depth = 2 if tier == "quick" else 3
            for d in range(1, depth + 1):
                for k, seq in enumerate(itertools.product(rs, repeat=d)):
                    for j, v in enumerate(ACCEPTED[c]):
                        if c == "f" and v == "bar_chart_ova":
                            continue
                        if d > 1 and tier == "quick" and j != k % len(ACCEPTED[c]):
                            continue
                        if d == 2 and seq[0] == seq[1]:
                            continue
                        out.append(("reject", c, seq, v))
        return out

    def run(self, case, ctx):
        getattr(self, case[0])(case, ctx)
        ctx.state(case)
        ctx.nt(case)
        ctx.trace()

    def new(self, case, ctx):
        _, code, op = case
        m = new(code)
        cmp = env.FeatureInteractionMethodComparator()
        fit = fitted.fit("G") if op[-1:] in ("1", "2") else None
        fn = {"value": lambda: m.interaction_value("a", "b"), "corr1": lambda: cmp.correlation(m, fit),
              "corr2": lambda: cmp.correlation(fit, m), "corrs1": lambda: cmp.correlations(m, fit),
              "corrs2": lambda: cmp.correlations(fit, m), "sum1": lambda: cmp.summary(m, fit),
              "sum2": lambda: cmp.summary(fit, m), "plot1": lambda: cmp.comparison_plot(m, fit),
              "plot2": lambda: cmp.comparison_plot(fit, m), "default": lambda: m.plot()}.get(op, lambda: m.plot(op))
        raises(fn, env.MethodNotFittedException, "%s before fit" % op)
        ctx.step()
        for k in ("ovo", "ova", "feature_importance"):
            expect(getattr(m, k, None) is None, "an unfitted method has %s", k)

    def fitted(self, case, ctx):
        _, code, v = case
        m = make(code)
        before = fitted.results(m)
        if v == "default":
            a = figs.describe(figs.one_figure(lambda: m.plot()))
            b = figs.describe(figs.one_figure(lambda: m.plot("heatmap")))
            expect(a == b, "plot() is not the heatmap: %s", figs.first_difference(a, b))
        elif v in ACCEPTED[code] and not (code == "f" and v == "bar_chart_ova"):
            fig = figs.one_figure(lambda: m.plot(v))
            expect(len(fig.axes) > 0, "%s drew nothing", v)
        elif code == "f" and v == "bar_chart_ova":
            with figs.newfigs():        # no one-vs-all results: only that it is not one of the unsupported kinds
                try:
                    m.plot(v)
                except env.VisualizationNotSupportedException:
                    expect(False, "bar_chart_ova is supported by the H-statistic")
                except Exception:
                    pass
        else:
            n = raises(lambda: m.plot(v), env.VisualizationNotSupportedException, "plot(%r)" % v)
            expect(n == 0, "a rejected plot opened %d figures", n)
        diff = fitted.same_results(fitted.results(m), before)
        expect(diff is None, "plot(%r) changed %s", v, diff)
        ctx.step()

    def model(self, case, ctx):
        _, u, where = case
        x = unsupported(u)
        if where == "handler":
            fn = lambda: env.GBTreesHandler(x)
        elif where == "unify":
            h = env.GBTreesHandler(fitted.gb_model("xgb"))
            fn = lambda: h.unify_structure(x)
        elif where == "fit":
            m = env.SplitScoreMethod()
            fn = lambda: m.fit(x)
        else:
            m = env.SplitScoreMethod()
            fn = lambda: m.fit(x, interaction_selected_metric="sum_cover")
        raises(fn, env.ModelNotSupportedException, "%s(%s)" % (where, u))
        ctx.step()
        if where.startswith("fit"):
            raises(lambda: m.plot(), env.MethodNotFittedException, "plot after a rejected fit")

    def metric(self, case, ctx):
        _, pkg, form, a, b = case
        model = boosted.build(pkg, list(fitted.NAMES[:3]), fitted.GB_TREES, via=form)
        m = env.SplitScoreMethod()
        fn = lambda: m.fit(model, interaction_selected_metric=a, importance_selected_metric=b)
        ctx.step()
        if pkg == "lgb" and ("cover" in a or "cover" in b):
            raises(fn, env.MetricNotSupportedException, "LightGBM with %s, %s" % (a, b))
            raises(lambda: m.plot(), env.MethodNotFittedException, "plot after a rejected fit")
        else:
            with fitted.quiet():
                fn()
            expect(len(m.ovo) > 0 and len(m.feature_importance) > 0, "no results for %s, %s", a, b)

    def minimal(self, case, ctx):
        model = fitted.rf_model(kind=case[1])
        imp = env.MinimalDepthImportance()
        raises(lambda: imp.importance(model, None), env.FeatureImportanceWithoutInteractionException,
               "minimal depth importance alone")
        expect(imp.feature_importance is None, "a rejected call left an importance table")
        ctx.step()

    def reject(self, case, ctx):
        _, code, seq, v = case
        m = make(code)
        before = observe(m)
        random.seed(3)
        pic = figs.describe(figs.one_figure(lambda: m.plot(v)))
        for i, r in enumerate(seq):
            reject(m, r)
            ctx.step()
            diff = fitted.same_results(observe(m), before)
            expect(diff is None, "rejected calls %s changed %s", seq[:i + 1], diff)
        random.seed(3)
        now = figs.describe(figs.one_figure(lambda: m.plot(v)))
        expect(now == pic, "%s after rejected calls %s shows something else: %s", v, seq, figs.first_difference(now, pic))
        if code in "FfG":
            z = figs.one_figure(lambda: m.plot_profile("b", "a"))
            expect(len(z.axes) > 0, "no profile")
