"""C19: histories of fits on one object, interleaved with fits of a second one, against fresh objects in fresh processes."""
import itertools

import matplotlib.pyplot as plt
import numpy as np
import pandas as pd

from .. import env, figs, fitted
from ..core import expect
from ..domain import Boom, TableModel, frame, generic, make_table
from .readonly import in_fork


class Cycle(env.Choices):
    """A fixed stream of outcomes that can be rewound."""

    def pick(self, n):
        i = len(self.taken)
        c = (5 * i + 2) % n
        self.taken.append(c)
        self.arity.append(n)
        return c

    def rewind(self):
        self.taken, self.arity = [], []


class World:
    """Inputs shared by all steps of a history; 'mutated' inputs are the same objects with other contents."""

    def __init__(self):
        self.model, self.X, _ = fitted.toy(3)
        self.shared_calc = None
        self.handler = None

    def contents(self, k):
        _, X, table = fitted.toy(3, 13 * k)
        self.model.table = table
        rows = [(0, 1, 1), (1, 1, 0), (1, 0, 1), (0, 0, 0), (1, 1, 1)]
        if k:
            rows = [(1, 1, 0), (0, 0, 1), (1, 0, 0), (0, 1, 1), (0, 0, 0)]
        for j, c in enumerate(self.X.columns):
            self.X[c] = [r[j] for r in rows]
        return self.model, self.X, np.array([table[r] + 0.2 * i for i, r in enumerate(rows)])


def small(shift=0, names=("z", "b")):
    rows = [(0, 1), (2, 0), (1, 1), (2, 1)]
    doms = [(0, 1, 2), (0, 1)]
    table = make_table(doms, [generic((i * 3 + shift) % 70) / 50.0 for i in range(6)])
    return TableModel(names, table), frame(names, rows, "str"), np.array([table[r] - 0.3 * i for i, r in enumerate(rows)])


def alt(model, X):
    return np.array([float(v) ** 2 for v in model.predict(X)]) - 1


class Failing:
    """A model that fails at its k-th prediction."""

    def __init__(self, k):
        inner, X, self.y = small(5, ("b", "q"))
        self.X = X
        self.m = TableModel(inner.cols, inner.table, fail=(k,))

    def predict(self, X):
        return self.m.predict(X)


BIG = fitted.GB_TREES
STUMPS = [((0, 3.0, 5.0), None, None), ((1, 2.0, 5.0), None, None)]
RF2 = [(1, (0, None, None), None), (0, None, (1, None, None))]


def fit_pd(m, k, w, ova):
    kw = {} if ova is None else {"calculate_ova": ova}
    if k == "all":
        model, X, _ = fitted.toy(3)
        m.fit(model, X)
    elif k == "sub":
        model, X, _ = fitted.toy(3, 9)
        m.fit(model, X, features=["c", "b"], batchsize=3, **kw)
    elif k == "small":
        model, X, _ = small()
        m.fit(model, X, n=3)
    elif k == "func":
        model, X, _ = w.contents(0)         # the same model and data as in "m0"
        m.fit(model, X, predict_function=alt, features=list(X.columns)[::-1])
    elif k in ("m0", "m1"):
        model, X, _ = w.contents(int(k[1]))
        m.fit(model, X, **kw)
    elif k == "calc":
        model, X, _ = fitted.toy(3, 21)
        c = env.PartialDependenceCalculator(model, X)
        c.calculate_pd_single()
        m.fit(model, X, pd_calculator=c, **kw)
    elif k == "boom":
        f = Failing(1)
        try:
            m.fit(f, f.X, batchsize=2)
        except Boom:
            return
        expect(False, "a failing model was explained")
    elif k == "mismatch":
        model, X, _ = fitted.toy(3, 21)
        c = env.PartialDependenceCalculator(model, X.iloc[1:])
        try:
            m.fit(model, X, pd_calculator=c)
        except ValueError:
            return
        expect(False, "a calculator of other data was accepted")


def fit_sejong(m, k, w):
    if k == "all":
        model, X, t = fitted.toy(3)
        m.fit(model, X, np.array([t[tuple(r)] for r in X.values.tolist()]) + np.array([0.3, -0.2, 0, 0.1, 0.4]), n_repeat=2)
    elif k == "sub":
        model, X, t = fitted.toy(3, 9)
        m.fit(model, X, pd.Series([0.5, 0.1, 0.9, 0.3, 0.2], index=list("vwxyz")), n_repeat=1, features=["c", "b"])
    elif k == "small":
        model, X, y = small()
        m.fit(model, X, y, n=3, n_repeat=2)
    elif k in ("m0", "m1"):
        model, X, y = w.contents(int(k[1]))
        m.fit(model, X, y, n_repeat=1)
    elif k == "boom":
        f = Failing(2)
        try:
            m.fit(f, f.X, f.y, n_repeat=1)
        except Boom:
            return
        expect(False, "a failing model was explained")


def fit_split(m, k, w):
    if k == "xgb":
        m.fit(fitted.gb_model("xgb"))
    elif k == "depth":
        m.fit(fitted.gb_model("lgb"), interaction_selected_metric="mean_depth", importance_selected_metric="mean_depth")
    elif k == "every":
        m.fit(fitted.gb_model("xgb", 3, BIG[:2], ("q", "b", "a")), interaction_selected_metric="sum_cover",
              importance_selected_metric="root_frequency", only_def_interactions=False)
    elif k == "stumps":
        m.fit(fitted.gb_model("xgb", 2, STUMPS, ("a", "b")), interaction_selected_metric="sum_gain")
    elif k == "handler":
        if w.handler is None:
            w.handler = env.GBTreesHandler(fitted.gb_model("xgb", 3, BIG[1:], ("a", "c", "b")))
        m.fit(w.handler, importance_selected_metric="mean_weighted_depth")
    elif k == "rejected":
        try:
            m.fit(fitted.gb_model("lgb", 3, BIG[:1]), interaction_selected_metric="sum_cover")
        except env.MetricNotSupportedException:
            return
        expect(False, "a cover metric was accepted for LightGBM")


def fit_cmd(m, k, w):
    if k == "three":
        m.fit(fitted.rf_model())
    elif k == "one":
        m.fit(fitted.rf_model(3, fitted.RF_TREES[:1], ("q", "b", "a")))
    elif k == "classifier":
        m.fit(fitted.rf_model(2, RF2, ("a", "b"), "rfc"))
    elif k == "four":
        m.fit(fitted.rf_model(4, [(3, fitted.RF_TREES[0], fitted.RF_TREES[1])], ("d", "c", "b", "a"), "etr"))
    elif k == "bad":
        try:
            m.fit(object())
        except Exception:
            return
        expect(False, "object() was explained")


def fit_add(m, k, w):
    if k == "all":
        model, X, _ = fitted.toy(3)
        m.fit(model, X)
    elif k == "small":
        model, X, _ = small()
        m.fit(model, X, n=3)
    elif k == "func":
        model, X, _ = w.contents(0)
        m.fit(model, X, predict_function=alt, batchsize=1)
    elif k in ("m0", "m1"):
        model, X, _ = w.contents(int(k[1]))
        m.fit(model, X)
    elif k == "calc":
        model, X, _ = fitted.toy(3, 21)
        m.fit(model, X, pd_calculator=env.PartialDependenceCalculator(model, X))


def fit_pdi(m, k, w):
    if k == "all":
        model, X, _ = fitted.toy(3)
        m.importance(model, X)
    elif k == "sub":
        model, X, _ = fitted.toy(3, 9)
        m.importance(model, X, features=["c", "b"])
    elif k == "small":
        model, X, _ = small()
        m.importance(model, X)
    elif k == "func":
        model, X, _ = w.contents(0)
        m.importance(model, X, predict_function=alt)
    elif k in ("m0", "m1"):
        model, X, _ = w.contents(int(k[1]))
        m.importance(model, X)


def fit_perm(m, k, w):
    if k == "all":
        model, X, t = fitted.toy(3)
        m.importance(model, X, np.array([0.3, -0.2, 0, 0.1, 0.4]), n_repeat=2)
    elif k == "sub":
        model, X, t = fitted.toy(3, 9)
        m.importance(model, X, pd.Series([0.5, 0.1, 0.9, 0.3, 0.2], index=list("vwxyz")), n_repeat=1, features=["c", "b"])
    elif k == "small":
        model, X, y = small()
        m.importance(model, X, y, n_repeat=3)
    elif k in ("m0", "m1"):
        model, X, y = w.contents(int(k[1]))
        m.importance(model, X, y, n_repeat=1)


def fit_ssi(m, k, w):
    h = env.GBTreesHandler(fitted.gb_model("lgb" if k == "depth" else "xgb", 3, BIG[:2] if k == "sub" else BIG))
    if k == "all":
        m.importance(h)
    elif k == "sub":
        m.importance(h, features=["c", "b"], selected_metric="mean_cover")
    elif k == "depth":
        m.importance(h, selected_metric="mean_weighted_depth")
    elif k == "root":
        m.importance(h, selected_metric="root_frequency", trees_df=h.trees_df)


def fit_handler(m, k, w):
    if k == "xgb":
        m.unify_structure(fitted.gb_model("xgb"))
    elif k == "lgb":
        m.unify_structure(fitted.gb_model("lgb", 3, BIG[:2]))
    elif k == "stumps":
        m.unify_structure(fitted.gb_model("xgb", 2, STUMPS, ("a", "b")))
    elif k == "bad":
        try:
            m.unify_structure(fitted.rf_model())
        except env.ModelNotSupportedException:
            return
        expect(False, "a forest was accepted as boosted trees")


MUTABLE = ("m0", "m1", "func")      # explanations of the inputs that change in place
PD = ("all", "sub", "small", "func", "m0", "m1", "calc", "boom", "mismatch")
KINDS = {
    "F": (lambda: env.FriedmanHStatisticMethod(random_state=1), lambda m, k, w: fit_pd(m, k, w, k in ("all", "m0", "small")), PD),
    "U": (lambda: env.FriedmanHStatisticMethod(normalized=False, random_state=1),
          lambda m, k, w: fit_pd(m, k, w, False), ("all", "sub", "small", "m0", "m1", "boom")),
    "G": (lambda: env.GreenwellMethod(random_state=1), lambda m, k, w: fit_pd(m, k, w, None), PD),
    "S": (lambda: env.SejongOhMethod(env.RMSE(), random_state=1), fit_sejong, ("all", "sub", "small", "m0", "m1", "boom")),
    "B": (lambda: env.SplitScoreMethod(), fit_split, ("xgb", "depth", "every", "stumps", "handler", "rejected")),
    "C": (lambda: env.ConditionalMinimalDepthMethod(), fit_cmd, ("three", "one", "classifier", "four", "bad")),
    "A": (lambda: env.AdditivityMeter(random_state=1), fit_add, ("all", "small", "func", "m0", "m1", "calc")),
    "D": (lambda: env.PartialDependenceBasedImportance(), fit_pdi, ("all", "sub", "small", "func", "m0", "m1")),
    "M": (lambda: env.PermutationImportance(env.RMSE(), random_state=1), fit_perm, ("all", "sub", "small", "m0", "m1")),
    "N": (lambda: env.PermutationImportance(env.MSE(), random_state=1), fit_perm, ("all", "sub")),
    "T": (lambda: env.SejongOhMethod(env.MSE(), random_state=1), fit_sejong, ("all", "sub")),
    "P": (lambda: env.SplitScoreImportance(), fit_ssi, ("all", "sub", "depth", "root")),
    "H": (lambda: env.GBTreesHandler(), fit_handler, ("xgb", "lgb", "stumps", "bad")),
}
FAILS = ("boom", "mismatch", "rejected", "bad")


def observe(m, kind):
    out = fitted.results(m)
    for k in ("additivity_index", "package", "trees_df", "preds"):
        v = getattr(m, k, None)
        if v is not None:
            out[k] = v.copy() if hasattr(v, "copy") else v
    if kind in "DMNP":
        out["direction"] = m.importance_ascending_order
    if kind in "FUGSTBC" and len(m.ovo):
        feats = sorted(set(out["feature_importance"]["Feature"]))
        for a, b in itertools.combinations(feats, 2):
            for p in ((a, b), (b, a)):
                try:
                    out["value of %s" % (p,)] = repr(m.interaction_value(*p))
                except IndexError:
                    out["value of %s" % (p,)] = "unknown"
    return out


def pictures(m, kind):
    """What the plots of an explanation show."""
    if kind not in "FUGSTBC" or not len(m.ovo):
        return {}
    names = ["heatmap", "graph", "bar_chart", "summary"] + (["lollipop"] if kind == "B" else []) + \
        (["bar_chart_conditional"] if kind == "C" else [])
    out = {}
    for v in names:
        out[v] = figs.describe(figs.one_figure(lambda: m.plot(v)))
        plt.close("all")
    if kind in "FUG":
        f = list(m.features_included)
        out["profile"] = figs.describe(figs.one_figure(lambda: m.plot_profile(f[1], f[0])))
        out["zenplot"] = figs.describe(figs.one_figure(lambda: m.plot_zenplot(3)))
    plt.close("all")
    return out


def fresh(kind, k):
    src = Cycle()
    with env.controlled(src):
        m = KINDS[kind][0]()
    with fitted.quiet():
        KINDS[kind][1](m, k, World())
    if k in FAILS:
        return None
    return observe(m, kind), pictures(m, kind), bool(src.uncontrolled)


class C19:
    id = "C19"
    rule = ("a case is a history of fits (configuration and object A or B of each step); non-trivial: at least two fits, by "
            "distinct case")
    assumptions = ["the generator of an object is rewound before every fit, so that 'depends on the random state' is factored "
                   "out", "after a fit that raised, only the next successful fit is specified"]
    chunk = 60

    def bound(self, tier):
        return ("13 kinds of objects with 2-9 configurations each (other models, data, features, options, sampling, shared "
                "calculators, inputs changed in place, failing fits); all histories of up to %d fits over two objects%s; "
                "all ordered pairs of fits of different kinds of objects, also with both objects created first; plots compared after histories of two fits" %
                ((3, " (3: of one object)") if tier == "quick" else (4, " (4: only of one object)")))

    def prepare(self, tier):
        self.ref = {}
        for kind in KINDS:
            for k in KINDS[kind][2]:
                r = in_fork(lambda: (fresh(kind, k),))
                self.ref[(kind, k)] = None if r is None else r[0]
                if r is None and k not in FAILS:
                    self.ref[(kind, k)] = "failed"

    def cases(self, tier):
        out = []
        for kind in KINDS:
            ks = KINDS[kind][2]
            out += [(kind, ((k, "A"),)) for k in ks]
        for kind in KINDS:
            ks = KINDS[kind][2]
            out += [(kind, ((a, "A"), (b, o))) for a in ks for b in ks for o in "AB"]
        every = [(kind, k) for kind in KINDS for k in KINDS[kind][2]]
        for a, b in itertools.product(every, repeat=2):
            if a[0] != b[0] and b[1] not in FAILS:
                out.append(("mix", (a, b), False))
        for a, b in itertools.permutations(KINDS, 2):           # both objects exist before the first fit
            for i, j in ((0, 0), (1, 0), (0, 1)):
                out.append(("mix", ((a, KINDS[a][2][i]), (b, KINDS[b][2][j])), None))
        for a, b in itertools.permutations("FUGSBC", 2):
            for i in range(1 if tier == "quick" else 3):
                out.append(("mix", ((a, KINDS[a][2][i]), (b, KINDS[b][2][i])), True))
        for kind in KINDS:
            ks = KINDS[kind][2]
            for a, b, c in itertools.product(ks, repeat=3):
                for o in (("A", "A"),) if tier == "quick" else itertools.product("AB", repeat=2):
                    out.append((kind, ((a, "A"), (b, o[0]), (c, o[1]))))
        if tier == "thorough":
            for kind in KINDS:
                for s in itertools.product(KINDS[kind][2], repeat=4):
                    out.append((kind, tuple((x, "A") for x in s)))
        return out

    def mix(self, case, ctx):
        """Objects of two different kinds; with plots in between."""
        _, steps, plots = case
        w, objs, seen = World(), [], []
        srcs = []

        def make(kind):
            srcs.append(Cycle())
            with env.controlled(srcs[-1]):
                objs.append(KINDS[kind][0]())
        if plots is None:
            for kind, _ in steps:
                make(kind)
        for i, (kind, k) in enumerate(steps):
            if plots is not None:
                make(kind)
            src = srcs[i]
            with fitted.quiet():
                KINDS[kind][1](objs[i], k, w)
            ctx.step()
            if k in FAILS:
                seen.append(None)
                continue
            ref = self.ref[(kind, k)]
            expect(ref != "failed", "configuration %s cannot be explained by a fresh object", k)
            seen.append(observe(objs[i], kind))
            if not src.uncontrolled and not ref[2]:
                diff = fitted.same_results(seen[i], ref[0])
                expect(diff is None, "after %s, %s differs from a fresh object's: %r / %r", steps[:i + 1], diff,
                       seen[i].get(diff), ref[0].get(diff))
                if plots:
                    pics = pictures(objs[i], kind)
                    for v in pics:
                        expect(pics[v] == ref[1].get(v), "after %s, plot %s differs from a fresh object's: %s", steps[:i + 1],
                               v, figs.first_difference(pics[v], ref[1].get(v)))
                        ctx.step()
        if seen[0] is not None:
            now = observe(objs[0], steps[0][0])
            if steps[0][1] in MUTABLE:
                for t in ("X_sampled", "y_sampled"):
                    now.pop(t, None)
                    seen[0].pop(t, None)
            diff = fitted.same_results(now, seen[0])
            expect(diff is None, "fitting another object changed %s (%s)", diff, steps)
        ctx.trace()
        ctx.state(case)
        ctx.nt(case)
        ctx.sample = {"steps": [list(x) for x in steps]}

    def run(self, case, ctx):
        if case[0] == "mix":
            return self.mix(case, ctx)
        kind, steps = case
        make, fit, _ = KINDS[kind]
        w = World()
        src = Cycle()
        with env.controlled(src):
            objs = {"A": make()}
            if any(o == "B" for _, o in steps):
                objs["B"] = make()
        last = {}
        for i, (k, o) in enumerate(steps):
            src.rewind()
            with fitted.quiet():
                fit(objs[o], k, w)
            ctx.step()
            if k in FAILS:
                last.pop(o, None)
                continue
            ref = self.ref[(kind, k)]
            expect(ref != "failed", "configuration %s cannot be explained by a fresh object", k)
            got = observe(objs[o], kind)
            if src.uncontrolled or ref[2]:
                ctx.count("uncontrolled")
            else:
                diff = fitted.same_results(got, ref[0])
                expect(diff is None, "after %s, %s differs from a fresh object's: %r / %r", steps[:i + 1], diff,
                       got.get(diff), ref[0].get(diff))
            for p, (seen, kk) in last.items():
                if p == o:
                    continue
                now = observe(objs[p], kind)
                if kk in MUTABLE:      # its inputs were changed by their owner
                    for t in ("X_sampled", "y_sampled"):
                        now.pop(t, None)
                        seen.pop(t, None)
                diff = fitted.same_results(now, seen)
                expect(diff is None, "fitting object %s changed %s of object %s (%s)", o, diff, p, steps[:i + 1])
            last[o] = (got, k)
        k, o = steps[-1]
        if len(steps) == 2 and k not in FAILS and not src.uncontrolled:
            pics = pictures(objs[o], kind)
            for v in pics:
                expect(pics[v] == self.ref[(kind, k)][1].get(v), "after %s, plot %s differs from a fresh object's: %s", steps,
                       v, figs.first_difference(pics[v], self.ref[(kind, k)][1].get(v)))
                ctx.step()
            if "B" in objs and o == "B" and last.get("A"):
                pics = pictures(objs["A"], kind)
                ka = steps[0][0]
                if ka not in FAILS and not (ka in MUTABLE and k in MUTABLE):
                    for v in pics:
                        expect(pics[v] == self.ref[(kind, ka)][1].get(v), "after %s, plot %s of object A differs: %s", steps, v,
                               figs.first_difference(pics[v], self.ref[(kind, ka)][1].get(v)))
                        ctx.step()
        ctx.trace()
        ctx.state(case)
        if len(steps) > 1:
            ctx.nt(case)
        ctx.sample = {"steps": [list(s) for s in steps]}
