"""C13/C14: enumeration of boosted ensembles (real XGBoost and LightGBM models) against the definitions."""
import contextlib
import io
import itertools
import json
import math

import numpy as np
import pandas as pd

from .. import env
from .. import treegen as tg
from ..core import expect
from ..domain import close, directed_table, feature_table, ordered, same_table

INTER = ["mean_gain", "sum_gain", "mean_depth", "mean_cover", "sum_cover"]
IMP = ["mean_gain", "sum_gain", "mean_depth", "mean_weighted_depth", "root_frequency", "weighted_root_frequency",
       "mean_cover", "sum_cover"]
COVER = ("mean_cover", "sum_cover")
NAMES = ("b", "a", "c")


# ---------------------------------------------------------------- reference
def split_list(trees):
    """Every split of the ensemble: (tree, feature, gain, cover, depth, parent feature, parent gain)."""
    out = []
    for ti, t in enumerate(trees):
        def go(x, depth, parent):
            if x is None:
                return
            f, g, c = x[0]
            out.append((ti, f, g, c, depth, None if parent is None else parent[0], None if parent is None else parent[1]))
            go(x[1], depth + 1, x[0])
            go(x[2], depth + 1, x[0])
        go(t, 0, None)
    return out


def agg(metric, rows):
    g, c, d = [r[2] for r in rows], [r[3] for r in rows], [r[4] for r in rows]
    return {"sum_gain": math.fsum(g), "mean_gain": math.fsum(g) / len(g), "sum_cover": math.fsum(c),
            "mean_cover": math.fsum(c) / len(c), "mean_depth": math.fsum(d) / len(d),
            "frequency": len(rows)}[metric]


def ref_inter(names, trees, metric, only_def):
    groups = {}
    for r in split_list(trees):
        if r[5] is None:
            continue
        if only_def and not (r[2] > r[6] and r[1] != r[5]):
            continue
        groups.setdefault((names[r[5]], names[r[1]]), []).append(r)
    return {k: agg(metric, v) for k, v in groups.items()}


def ref_imp(names, trees, metric, features=None):
    rows = [r for r in split_list(trees) if features is None or names[r[1]] in features]
    groups = {}
    for r in rows:
        groups.setdefault(names[r[1]], []).append(r)
    roots = math.fsum(r[2] for r in rows if r[4] == 0)
    out = {}
    for f, v in groups.items():
        rg = [r[2] for r in v if r[4] == 0]
        if metric == "root_frequency":
            out[f] = len(rg)
        elif metric == "weighted_root_frequency":
            out[f] = len(rg) * math.fsum(rg) / roots if rg else 0
        elif metric == "mean_weighted_depth":
            out[f] = math.fsum(r[4] * r[2] for r in v) / math.fsum(r[2] for r in v)
        else:
            out[f] = agg(metric, v)
    return out


def with_cover(t, start):
    """Gives every split (feature, gain) its own cover."""
    it = itertools.count(start)
    cov = [11, 7, 23, 5, 17, 3, 29, 13, 19, 31, 37, 41, 43, 47]

    def go(x):
        if x is None:
            return None
        c = cov[next(it) % len(cov)]
        return ((x[0][0], float(x[0][1]), float(c)), go(x[1]), go(x[2]))
    return go(t)


def alphabet(nf, gains):
    return [(f, g) for f in range(nf) for g in gains]


def small_trees(kmax, nf=2, gains=(1, 2)):
    return [t for k in range(kmax + 1) for t in tg.trees(k, alphabet(nf, gains))]


def build(package, names, trees, orders=None, via="booster"):
    b = (tg.xgb_booster if package == "xgb" else tg.lgb_booster)(list(names), trees, orders)
    if via == "booster":
        return b
    if via == "handler":
        return env.GBTreesHandler(b)
    if package == "xgb":
        import xgboost
        w = xgboost.XGBRegressor() if via == "regressor" else xgboost.XGBClassifier()
        w._Booster = b
        return w
    import lightgbm
    w = lightgbm.LGBMRegressor() if via == "regressor" else lightgbm.LGBMClassifier()
    w._Booster = b
    w.fitted_ = True
    return w


VIAS = ("booster", "regressor", "handler", "classifier")


def real_models(package):
    """Models trained by the library itself, with their trees read from the model's own dump."""
    X = pd.DataFrame({"b": [0., 0, 1, 1, 2, 2, 3, 3, 0, 1, 2, 3], "a": [0., 1, 0, 1, 0, 1, 0, 1, 2, 2, 2, 2],
                      "c": [5., 4, 5, 4, 4, 5, 4, 5, 5, 5, 4, 4]})
    targets = [X["a"] * X["b"] + 0.3 * X["c"], (X["a"] == 1) * (X["b"] > 1) * 3.0 + X["c"] * X["a"], X["b"] * 1.5 - X["a"],
               ((X["a"] + X["b"]) % 2).astype(float)]
    out = []
    for ti, y in enumerate(targets):
        for depth, rounds in ((1, 3), (2, 2), (3, 12), (5, 1)):
            out.append((ti, depth, rounds))
    for how in ("multi", "binary", "numpy", "cat"):         # several trees per round; default names; categorical splits
        for ti, depth, rounds in ((0, 2, 4), (1, 3, 5)):
            if (how, package) != ("cat", "xgb"):
                out.append((ti, depth, rounds, how))
    return X, targets, out


def train_real(package, spec):
    X, targets, _ = real_models(package)
    ti, depth, rounds = spec[:3]
    how = spec[3] if len(spec) > 3 else ""
    y = targets[ti]
    if how == "multi":
        y = (y.rank(method="dense") % 3).astype(int)
    elif how == "binary":
        y = (y > y.median()).astype(int)
    if how == "cat":
        X = X.assign(b=X["b"].map({0: "w", 1: "x", 2: "y", 3: "z"}).astype("category"))
    names = list(X.columns)
    if how == "numpy":
        names = ["f0", "f1", "f2"] if package == "xgb" else ["Column_0", "Column_1", "Column_2"]
        X = X.to_numpy()
    if package == "xgb":
        import xgboost
        m = (xgboost.XGBClassifier if how in ("multi", "binary") else xgboost.XGBRegressor)(n_estimators=rounds, max_depth=depth, n_jobs=1, random_state=0, tree_method="exact",
                                 min_child_weight=0, reg_lambda=0.1)
        m.fit(X, y)
        trees = []
        for d in m.get_booster().get_dump(with_stats=True, dump_format="json"):
            def go(n):
                if "leaf" in n:
                    return None
                kids = {k["nodeid"]: k for k in n["children"]}
                return ((names.index(str(n["split"])), n["gain"], n["cover"]), go(kids[n["yes"]]), go(kids[n["no"]]))
            trees.append(go(json.loads(d)))
        return m, names, trees
    import lightgbm
    m = (lightgbm.LGBMClassifier if how in ("multi", "binary") else lightgbm.LGBMRegressor)(n_estimators=rounds, max_depth=depth, num_leaves=2 ** depth, n_jobs=1, random_state=0,
                               min_child_samples=1, min_data_in_bin=1, min_sum_hessian_in_leaf=0.0, min_data_per_group=1, cat_smooth=0.0, verbosity=-1)
    m.fit(X, y)
    trees = []

    def go(n):
        if "split_feature" not in n:
            return None
        return ((n["split_feature"], n["split_gain"], 1.0), go(n["left_child"]), go(n["right_child"]))
    for t in m.booster_.dump_model()["tree_info"]:
        trees.append(go(t["tree_structure"]))
    return m, names, trees


def enumerate_cases(tier, combos):
    """(package, names index count, trees, orders, via, combo)"""
    out = []
    trees2 = small_trees(2)
    k = 0
    for package in ("xgb", "lgb"):
        for ti, t in enumerate(trees2):
            for combo in range(combos[package]):
                out.append((package, (ti,), None, VIAS[(ti + combo) % 4], combo))
    t3 = len(trees2)
    trees3 = [t for t in tg.trees(3, alphabet(2, (1, 2)))]
    for package in ("xgb", "lgb"):
        for ti, t in enumerate(trees3):
            todo = range(combos[package]) if tier == "thorough" else [ti % combos[package],
                                                                     (ti * 3 + 1) % combos[package]]
            for combo in todo:
                out.append((package, (t3 + ti,), None, VIAS[(ti + combo) % 4], combo))
    # ensembles
    n = len(trees2)
    for package in ("xgb", "lgb"):
        for i, (a, b) in enumerate(itertools.product(range(n), repeat=2)):
            if tier == "quick":
                if (a > 4 and b > 4 and (a + b) % 3):
                    continue
                todo = [i % combos[package]]
            else:
                todo = range(combos[package])
            for combo in todo:
                out.append((package, (a, b), None, VIAS[i % 4], combo))
    # three trees of at most one split, all
    for package in ("xgb", "lgb"):
        for i, c in enumerate(itertools.product(range(5), repeat=3)):
            todo = [i % combos[package]] if tier == "quick" else range(combos[package])
            for combo in todo:
                out.append((package, c, None, VIAS[i % 4], combo))
    # node numberings of larger trees
    for package in ("xgb", "lgb"):
        for ti, t in enumerate(BIG):
            for oi, _ in enumerate(tg.expansion_orders(t)):
                if oi % (7 if tier == "quick" else 1) == 0:
                    out.append((package, ("big", ti), oi, "booster", (oi + ti) % combos[package]))
        for nf in (5, 7):
            for off in range(nf):
                for combo in [(off + nf) % combos[package]] if tier == "quick" else range(combos[package]):
                    out.append((package, ("wide", nf, off), None, VIAS[off % 4], combo))
        out += [(package, ("wide", 17, off), None, VIAS[off % 4], off % combos[package]) for off in range(0, 17, 5)]
        for combo in range(combos[package]):
            out.append((package, ("many", 13), None, VIAS[combo % 4], combo))
            out.append((package, ("many", 115 if combo % 2 else 52), None, VIAS[combo % 4], combo))
            for turn in range(3):
                out.append((package, ("deep", 12 + 14 * ((combo + turn) % 2), turn), None, VIAS[combo % 4], combo))
    for package in ("xgb", "lgb"):
        for si, spec in enumerate(real_models(package)[2]):
            for combo in (range(combos[package]) if tier == "thorough" else [si % combos[package],
                                                                           (si + 3) % combos[package]]):
                out.append((package, ("real",) + spec, None, "regressor", combo))
    return out


def _l(f, g):
    return (f, g)


BIG = [
    (_l(0, 2), (_l(1, 3), (_l(0, 4), None, None), (_l(2, 2), None, (_l(1, 5), None, None))), (_l(2, 1), (_l(1, 6), None, None), None)),
    (_l(2, 1), (_l(2, 2), (_l(0, 3), (_l(1, 4), None, None), None), None), (_l(1, 1), None, (_l(0, 9), None, None))),
    (_l(1, 5), None, (_l(0, 4), (_l(1, 6), (_l(0, 5), None, None), (_l(2, 7), None, None)), (_l(2, 3), None, (_l(1, 8), None, None)))),
]
_pool = None


def pool():
    global _pool
    if _pool is None:
        _pool = small_trees(2) + list(tg.trees(3, alphabet(2, (1, 2))))
    return _pool


WIDE = ("b", "a", "c", "B", "x10", "x9", "d", "p", "q", "r", "s", "t", "u", "v", "w", "z", "z1")


def wide(nf, off):
    """An ensemble of four 15-31 split trees over nf features (up to 42 ordered pairs), labels rotated by off."""
    def bal(d):
        return None if d == 0 else (0, bal(d - 1), bal(d - 1))

    def chain(k):
        return None if k == 0 else ((0, None, chain(k - 1)) if k % 2 else (0, chain(k - 1), None))
    trees = []
    for k, sh in enumerate((bal(4), chain(9), bal(5), chain(1))):
        n = tg.size(sh)
        trees.append(with_cover(tg.relabel(sh, [((off + k + (1 + k) * i + i // 3) % nf, ((i * 5 + k * 3) % 11 + 1) / 4.0)
                                                for i in range(n)]), k))
    return WIDE[:nf], trees


def deep(n, turn):
    """A chain of n splits leaning left, right or zigzagging, whose features and gains change at every depth."""
    t = None
    for i in reversed(range(n)):
        lab = ((i * i + i // 5) % 3, ((i * 7) % 13 + 1) / 4.0)
        t = (lab, None, t) if turn == 1 or turn == 2 and i % 2 else (lab, t, None)
    return [with_cover(t, 0), with_cover((_l(2, 1), None, (_l(0, 2), None, None)), 3)]


def resolve(case):
    """-> (model, names, trees)"""
    package, spec, oi, via, combo = case
    if spec[0] == "real":
        return train_real(package, spec[1:])
    if spec[0] == "big":
        t = with_cover(BIG[spec[1]], 0)
        order = list(tg.expansion_orders(t))[oi]
        trees, orders = [t], [order]
        # the same tree once more under another root keeps ids of different trees apart
        trees.append(with_cover((_l(2, 1), None, (_l(0, 2), None, None)), 3))
        orders.append(None)
        return build(package, NAMES, trees, orders, via), NAMES, trees
    if spec[0] == "wide":
        names, trees = wide(*spec[1:])
        return build(package, names, trees, None, via), names, trees
    if spec[0] == "deep":
        trees = deep(*spec[1:])
        return build(package, NAMES, trees, None, via), NAMES, trees
    if spec[0] == "many":
        p = pool()
        trees = [with_cover(p[(37 + 23 * i) % len(p)], i) for i in range(spec[1])]
        return build(package, NAMES[:2], trees, None, via), NAMES[:2], trees
    p = pool()
    trees = [with_cover(p[i], 2 * j) for j, i in enumerate(spec)]
    names = NAMES[:2]
    return build(package, names, trees, None, via), names, trees


class Base:
    chunk = 24

    def heavy(self, case):
        return case[1][0] in ("real", "many")

    def cases(self, tier):
        return enumerate_cases(tier, self.combos)

    def run(self, case, ctx):
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            self.check(case, ctx)


class C13(Base):
    id = "C13"
    # (metric, only_def)
    grid = {"xgb": [(m, d) for d in (True, False) for m in INTER],
            "lgb": [(m, d) for d in (True, False) for m in INTER[:3]]}
    combos = {"xgb": 10, "lgb": 6}
    rule = ("a case is (library, ensemble, way of handing it over, metric, definition flag); non-trivial: some split has a "
            "parent split, by distinct (library, ensemble, metric, flag)")
    assumptions = ["split gains are positive (the libraries keep no others), features are not named 'Leaf'",
                   "LightGBM models carry no cover"]

    def bound(self, tier):
        return ("all trees of up to 3 splits over 2 features and gains {1,2} (%s), ensembles of 2 trees of up to 2 splits "
                "(%s) and of 3 stumps, all 5 metrics and both flags in rotation, every %s node numbering of three 5-7 split "
                "trees, ensembles of 13, 52 and 115 trees, chains of 12 and 26 splits, 5, 7 and 17 feature ensembles of up to 31-split trees in every label rotation, 46 models trained by the "
                "libraries (regression, binary, multiclass, unnamed columns, categorical)" %
                (("all metrics up to 2 splits, two per 3-split tree", "a third of all", "7th") if tier == "quick" else
                 ("all metrics", "all", "")))

    def check(self, case, ctx):
        package, spec, oi, via, combo = case
        metric, only_def = self.grid[package][combo]
        model, names, trees = resolve(case)
        want = ref_inter(names, trees, metric, only_def)
        m = env.SplitScoreMethod()
        m.fit(model, interaction_selected_metric=metric, only_def_interactions=only_def)
        got = directed_table(m.ovo, "Feature 1", "Feature 2", m.method)
        tol = 1e-5 if spec[0] == "real" else 1e-9
        same_table(got, want, "split score %s" % metric, tol)
        ordered(m.ovo[m.method].tolist(), metric == "mean_depth", "split score table")
        full = m.full_ovo
        for k in INTER[:3] + (INTER[3:] if package == "xgb" else []):
            same_table(directed_table(full, "parent_feature", "child_feature", k), ref_inter(names, trees, k, only_def),
                       "full table, %s" % k, tol)
        same_table(directed_table(full, "parent_feature", "child_feature", "frequency"),
                   ref_inter(names, trees, "frequency", only_def), "full table, frequency")
        ctx.step()
        ctx.trace()
        ctx.state((package, spec, oi, metric, only_def))
        ctx.seen("result_tables", (tuple(sorted(got.items())), metric))
        if any(r[5] is not None for r in split_list(trees)):
            ctx.nt((package, spec, oi, metric, only_def))
        ctx.sample = {"trees": trees[:3], "metric": metric, "only_def": only_def, "pairs": sorted(map(str, got.items()))}


class C14(Base):
    id = "C14"
    grid = {"xgb": [(m, s) for m in IMP for s in (False, True)],
            "lgb": [(m, s) for m in IMP[:6] for s in (False, True)]}
    combos = {"xgb": 16, "lgb": 12}
    rule = ("a case is (library, ensemble, way of handing it over, metric, stand-alone or as part of the interaction "
            "explanation); non-trivial: at least two splits, by distinct (library, ensemble, metric)")
    assumptions = C13.assumptions

    def bound(self, tier):
        return C13.bound(self, tier).replace("all 5 metrics and both flags", "all 8 metrics, stand-alone (with and without "
                                                                             "feature selections) and inside fit")

    def check(self, case, ctx):
        package, spec, oi, via, combo = case
        metric, alone = self.grid[package][combo]
        model, names, trees = resolve(case)
        tol = 1e-5 if spec[0] == "real" else 1e-9
        asc = metric in ("mean_depth", "mean_weighted_depth")

        def verify(df, features, where):
            got = feature_table(df)
            same_table(got, ref_imp(names, trees, metric, features), "%s %s" % (where, metric), tol)
            ordered(df["Importance"].tolist(), asc, "importance table")
            ctx.step()
            return got
        if alone:
            handler = model if isinstance(model, env.GBTreesHandler) else env.GBTreesHandler(model)
            got = verify(env.SplitScoreImportance().importance(handler, selected_metric=metric), None, "importance")
            for fs in ([names[0]], [names[1], names[0]]):
                if fs:
                    verify(env.SplitScoreImportance().importance(handler, features=fs, selected_metric=metric), fs,
                           "importance of %r" % (fs,))
            verify(env.SplitScoreImportance().importance(handler, selected_metric=metric), None, "repeated importance")
        else:
            m = env.SplitScoreMethod()
            m.fit(model, importance_selected_metric=metric)
            got = verify(m.feature_importance, None, "importance in the explanation")
        ctx.trace()
        ctx.state((package, spec, oi, metric))
        ctx.seen("result_tables", (tuple(sorted(got.items())), metric))
        if len(split_list(trees)) > 1:
            ctx.nt((package, spec, oi, metric))
        ctx.sample = {"trees": trees[:3], "metric": metric, "importance": got}
