"""C29: every reordering of rows, columns and trees and every consistent renaming or recoding of a small input."""
import itertools
import math

import numpy as np
import pandas as pd

from .. import env, fitted
from .. import treegen as tg
from ..core import expect
from ..domain import Ref, TableModel, close, generic, make_index, make_table
from . import boosted

BASE = ("p", "q", "r", "s")
DOMS = {"num": [(0, 1, 2), (0, 1), (0, 1), (0, 1)], "mix": [(0, 1, 2), ("k", "m"), (0, 1), ("u", "v")]}
DESIGNS = [((0, 0, 0, 0), (1, 1, 0, 1), (2, 0, 1, 1)), ((0, 1, 1, 0), (2, 0, 1, 0), (1, 1, 0, 1), (2, 1, 1, 1)),
           ((0, 0, 1, 1), (0, 1, 0, 0), (0, 1, 0, 0), (2, 0, 0, 1)), ((2, 0, 1, 0), (1, 0, 0, 0), (1, 1, 1, 1), (0, 1, 0, 1))]

# names that are prefixes or concatenations of each other, contain separators, differ in case or look like other things
TRICKY = [("x", "xx", "xxx"), ("a", "a:b", "b"), ("a", "A", "aA"), ("f1", "f10", "f1_0"), ("a_b", "a", "b"), ("a ", "a", " a"),
          ("0", "1", "01"), ("a,b", "(a", "b)"), ("é", "e", "ê"), ("Feature 1", "Feature 2", "Feature"), ("a - b", "b", "a"),
          ("value", "variable", "root_variable"), ("Importance", "index", "level_0"), ("n_occurences", "depth", "split_feature"),
          ("nan", "None", ""), ("%s", "{0}", "$x$"), ("tree", "gain", "parent_name"), ("b", "a", "c"), ("c", "b", "a"),
          ("f_values", "pd_values", "f1_values"), ("count", "sum", "mean"), ("ova", "ovo", "X"), ("self", "centered_prediction", "n"),
          ("model", "features", "Friedman H-statistic Interaction Measure")]
TRICKY_TREE = [t for t in TRICKY if not any(set(n) & set("[]<> :,{}\"") or n == "" or not n.isascii() for n in t)] + [
    ("a_b", "b", "a"), ("f0", "f1", "f2"), ("f2", "f1", "f0"), ("Tree", "Node", "ID"), ("Gain", "Cover", "Split"),
    ("Column_0", "Column_1", "Column_10"), ("leaf", "yes", "no"), ("left", "right", "root"), ("gain", "cover", "depth"),
    ("1", "10", "0"), ("a-b", "a", "b"), ("LeafWidth", "aLeaf", "leaf_"), ("NLeaf", "Leaf2", "LEAF"), ("nan_x", "NaN", "None1"),
    ("Feature1", "Feature", "node_index"), ("tree_index", "left_child", "parent_index")]

RECODE = {"shift": lambda v: v + 10, "neg": lambda v: v * 7 - 100, "frac": lambda v: 0.1 + 0.2 * v, "huge": lambda v: v * 10 ** 9 + 2 ** 40,
          "tiny": lambda v: v * 1e-7, "gaps": lambda v: [0, 1, 50][v], "floats": float, "int8": int}


def design(kind, nf, d):
    doms = DOMS[kind][:nf]
    rows = [tuple(doms[j][i % len(doms[j])] for j, i in enumerate(r[:nf])) for r in DESIGNS[d]]
    used = [tuple(sorted({r[j] for r in rows})) for j in range(nf)]
    return rows, used


def values(used, shift):
    n = 1
    for u in used:
        n *= len(u)
    return [(generic((i * 11 + shift) % 70) + generic((i + 3 * shift) % 70) / 7.0) / 50.0 for i in range(n)]


def frame(cols, rows, dtypes=None):
    df = pd.DataFrame({c: [r[j] for r in rows] for j, c in enumerate(cols)}, columns=list(cols))
    for c, t in (dtypes or {}).items():
        df[c] = df[c].astype(t)
    return df


def canon(m, back=None):
    """{table: {key with the base names: value}} of a fitted explanation."""
    b = (lambda x: x) if back is None else back.__getitem__
    out = {}
    f1, f2 = ("root_variable", "variable") if "root_variable" in m.ovo.columns else ("Feature 1", "Feature 2")
    for col in m.ovo.columns:
        if col in (f1, f2):
            continue
        d = {}
        for x, y, v in zip(m.ovo[f1].tolist(), m.ovo[f2].tolist(), m.ovo[col].tolist()):
            key = (b(x), b(y)) if isinstance(m, (env.SplitScoreMethod, env.ConditionalMinimalDepthMethod)) else frozenset((b(x), b(y)))
            expect(key not in d, "pair %r is listed twice", (x, y))
            d[key] = v
        out["ovo " + str(col)] = d
    if getattr(m, "ova", None) is not None:
        out["ova"] = {b(x): v for x, v in zip(m.ova["Feature"].tolist(), m.ova[[c for c in m.ova.columns if c != "Feature"][0]].tolist())}
    out["importance"] = canon_imp(m.feature_importance, b)
    return out


def canon_imp(df, b=lambda x: x):
    col = [c for c in df.columns if c != "Feature"][0]
    return {b(x): v for x, v in zip(df["Feature"].tolist(), df[col].tolist())}


def same(got, want, what):
    expect(set(got) == set(want), "%s: tables %r instead of %r", what, sorted(got), sorted(want))
    for t in want:
        g, w = got[t], want[t]
        if not isinstance(w, dict):
            expect(close(g, w, 1e-7), "%s: %s is %r instead of %r", what, t, g, w)
            continue
        expect(set(g) == set(w), "%s: %s lists %r instead of %r", what, t, sorted(map(repr, g)), sorted(map(repr, w)))
        for k in w:
            expect(close(g[k], w[k], 1e-7), "%s: %s of %r is %r instead of %r", what, t, k, g[k], w[k])


AGNOSTIC = ("F", "U", "G", "P", "A")


def explain(code, model, X, feats, back=None):
    b = (lambda x: x) if back is None else back.__getitem__
    if code in "FU":
        m = env.FriedmanHStatisticMethod(normalized=code == "F")
        m.fit(model, X, features=feats)
    elif code == "G":
        m = env.GreenwellMethod()
        m.fit(model, X, features=feats)
    elif code == "P":
        return {"importance": canon_imp(env.PartialDependenceBasedImportance().importance(model, X, features=feats), b)}
    else:
        a = env.AdditivityMeter()
        return {"additivity": a.fit(model, X)}
    out = canon(m, back)
    # what is looked up by name is the same number, too
    for k, v in list(out["ovo " + m.method].items()):
        x, y = sorted(k)
        inv = {b(n): n for n in X.columns}
        for u, w in ((x, y), (y, x)):
            expect(close(m.interaction_value(inv[u], inv[w]), v, 1e-7), "interaction_value(%r, %r) is %r, the table has %r", inv[u],
                   inv[w], m.interaction_value(inv[u], inv[w]), v)
    return out


def score_dist(method, model, X, y, feats, back, repeats):
    """Exact outcome distribution of a performance-based explanation over every outcome of the generator."""
    b = back.__getitem__ if back else (lambda x: x)
    dist = {}
    for src, res in env.explore(lambda: run_score(method, model, X, y, feats, repeats)):
        w = 1.0
        for a in src.arity:
            w /= a
        key = tuple(sorted(((tuple(sorted(map(b, k))) if isinstance(k, tuple) else b(k)), round(v, 7) + 0.0) for k, v in res.items()))
        dist[key] = dist.get(key, 0.0) + w
        if src.uncontrolled:
            return None
    return dist


def run_score(method, model, X, y, feats, repeats):
    df = env.PermutationImportance().importance(model, X, y, features=feats, n_repeat=repeats)
    return canon_imp(df)


def same_dist(got, want, what):
    if got is None or want is None:
        return False
    expect(set(got) == set(want), "%s: other outcomes are possible: %r against %r", what, sorted(got)[:3], sorted(want)[:3])
    for k in want:
        expect(abs(got[k] - want[k]) < 1e-9, "%s: outcome %r has probability %r instead of %r", what, k, got[k], want[k])
    return True


class C29:
    id = "C29"
    rule = ("a case is one input with all its row orders, column orders, renamings, recodings or tree orders; non-trivial: each "
            "distinct (input, transformed input) with results that are not all equal")
    assumptions = ["the feature name 'Leaf' marks leaves in the tree tables of the boosting libraries",
                   "the model answers the transformed question as the original one did the original question"]
    chunk = 4

    def bound(self, tier):
        q = tier == "quick"
        return ("4 row designs of 3-4 rows over 2-%d features (numeric and mixed), %d models each: all row orders, all column orders, "
                "%d name tuples in all assignments, %d recodings per feature and jointly; permutation importance: the exact outcome "
                "distribution under all row and column orders; forests and boosted ensembles of three trees: all tree orders, all "
                "feature orders, %d name tuples" % (3 if q else 4, 2 if q else 8, len(TRICKY), len(RECODE), len(TRICKY_TREE)))

    def cases(self, tier):
        quick = tier == "quick"
        shifts = (0, 9) if quick else range(0, 64, 8)
        out = []
        for kind in DOMS:
            for d in range(len(DESIGNS)):
                for s in shifts:
                    for nf in (2, 3) if quick else (2, 3, 4):
                        for code in AGNOSTIC:
                            out.append(("rows", kind, nf, d, s, code))
                            out.append(("cols", kind, nf, d, s, code))
        for kind in DOMS:
            for d in (0, 1) if quick else range(4):
                for code in AGNOSTIC:
                    for i in range(len(TRICKY)):
                        out.append(("names", kind, 3, d, 5 * i + d, code, i))
        for d in range(4):
            for s in shifts:
                for code in AGNOSTIC:
                    out.append(("recode", "num", 3, d, s, code))
        for d in (0,) if quick else (0, 1, 2):
            for s in shifts:
                out.append(("scores", "num", 2, d, s))
        for i in range(len(TRICKY)):
            out.append(("scorenames", "num", 3, i % 4, i, i))
        for ens in range(6 if quick else 24):
            for pkg in ("xgb", "lgb", "rf"):
                out.append(("trees", pkg, ens))
        for i in range(len(TRICKY_TREE)):
            for pkg in ("xgb", "lgb", "rf"):
                out.append(("treenames", pkg, i))
        return out

    def run(self, case, ctx):
        with fitted.quiet():
            getattr(self, case[0])(case, ctx)
        ctx.state(case)

    def base(self, case):
        _, kind, nf, d, s = case[:5]
        cols = BASE[:nf]
        rows, used = design(kind, nf, d)
        return cols, rows, used, make_table(used, values(used, s))

    def done(self, ctx, case, key, ref):
        ctx.trace()
        ctx.step()
        nums = [v for t in ref.values() for v in (t.values() if isinstance(t, dict) else [t])]
        if any(not close(a, b) for a, b in zip(nums, nums[1:])) or len(nums) == 1:
            ctx.nt((case, key))

    # -- model-agnostic
    def rows(self, case, ctx):
        cols, rows, used, table = self.base(case)
        code = case[5]
        ref = explain(code, TableModel(cols, table), frame(cols, rows), None)
        for p in itertools.permutations(range(len(rows))):
            X = frame(cols, [rows[i] for i in p])
            for lab in (None, ["r%d" % i for i in p]) if ctx.tier == "quick" else (None, list(p), ["r%d" % i for i in p]):
                if lab is not None:
                    X.index = lab
                same(explain(code, TableModel(cols, table), X, None), ref, "rows in order %r (labels %r)" % (p, lab))
                self.done(ctx, case, (p, repr(lab)), ref)

    def cols(self, case, ctx):
        cols, rows, used, table = self.base(case)
        code = case[5]
        ref = explain(code, TableModel(cols, table), frame(cols, rows), None)
        for p in itertools.permutations(range(len(cols))):
            c2 = [cols[i] for i in p]
            X = frame(c2, [[r[i] for i in p] for r in rows])
            same(explain(code, TableModel(cols, table, by_name=True), X, None), ref, "columns in order %r" % (c2,))
            self.done(ctx, case, p, ref)
            if code == "A":
                continue
            for sel in itertools.permutations(cols, 2):
                # a selection in any order gives the same numbers, restricted
                want = {}
                for t, d in ref.items():
                    want[t] = {k: v for k, v in d.items() if (k in sel if isinstance(k, str) else set(k) <= set(sel))}
                same(explain(code, TableModel(cols, table, by_name=True), X, list(sel)), want,
                     "columns %r, selection %r" % (c2, sel))
                self.done(ctx, case, (p, sel), want)

    def names(self, case, ctx):
        cols, rows, used, table = self.base(case)
        code = case[5]
        ref = explain(code, TableModel(cols, table), frame(cols, rows), None)
        for names in itertools.permutations(TRICKY[case[6]]):
            back = dict(zip(names, cols))
            same(explain(code, TableModel(names, table), frame(names, rows), None, back), ref, "features renamed to %r" % (names,))
            self.done(ctx, case, names, ref)
            if code != "A":
                sel = [names[2], names[0]]
                want = {t: {k: v for k, v in d.items() if (k in (cols[0], cols[2]) if isinstance(k, str) else set(k) <= {cols[0], cols[2]})}
                        for t, d in ref.items()}
                same(explain(code, TableModel(names, table), frame(names, rows), sel, back), want,
                     "features renamed to %r, selection %r" % (names, sel))

    def recode(self, case, ctx):
        cols, rows, used, table = self.base(case)
        code = case[5]
        ref = explain(code, TableModel(cols, table), frame(cols, rows), None)
        for name, fn in RECODE.items():
            for which in [(j,) for j in range(len(cols))] + [tuple(range(len(cols)))]:
                rec = lambda r: tuple(fn(v) if j in which else v for j, v in enumerate(r))
                t2 = {rec(k): v for k, v in table.items()}
                X = frame(cols, [rec(r) for r in rows], {cols[j]: "int8" for j in which} if name == "int8" else None)
                same(explain(code, TableModel(cols, t2), X, None), ref, "values of %r recoded by %s" % (which, name))
                self.done(ctx, case, (name, which), ref)
        if all(set(u) <= {0, 1} for u in used[1:]):
            rec = lambda r: (r[0],) + tuple(bool(v) for v in r[1:])
            same(explain(code, TableModel(cols, {rec(k): v for k, v in table.items()}), frame(cols, [rec(r) for r in rows]), None), ref,
                 "0/1 given as booleans")
            self.done(ctx, case, "bool", ref)

    def scores(self, case, ctx):
        cols, rows, used, table = self.base(case)
        y = [table[r] + (0.5, -0.25, 1.0, 0.0)[i % 4] for i, r in enumerate(rows)]
        ref = score_dist("P", TableModel(cols, table), frame(cols, rows), np.array(y), None, None, 1)
        for p in itertools.permutations(range(len(rows))):
            X = frame(cols, [rows[i] for i in p])
            for lab in (None, ["r%d" % i for i in p]):
                if lab is not None:
                    X.index = lab
                yy = pd.Series([y[i] for i in p], index=X.index)
                got = score_dist("P", TableModel(cols, table), X, yy, None, None, 1)
                if same_dist(got, ref, "rows in order %r" % (p,)):
                    ctx.trace(36)
                    ctx.nt((case, p, lab is None))
                ctx.step(36)
        for p in itertools.permutations(range(len(cols))):
            c2 = [cols[i] for i in p]
            X = frame(c2, [[r[i] for i in p] for r in rows])
            got = score_dist("P", TableModel(cols, table, by_name=True), X, np.array(y), None, None, 1)
            if same_dist(got, ref, "columns in order %r" % (c2,)):
                ctx.nt((case, c2))
            ctx.step(36)

    def scorenames(self, case, ctx):
        cols, rows, used, table = self.base(case)
        y = np.array([table[r] + (0.5, -0.25, 1.0, 0.0)[i % 4] for i, r in enumerate(rows)])

        def both(names, back):
            m = env.SejongOhMethod(random_state=11)
            m.fit(TableModel(names, table), frame(names, rows), y, n_repeat=3)
            out = canon(m, back)
            out["permutation"] = canon_imp(env.PermutationImportance(random_state=5).importance(
                TableModel(names, table), frame(names, rows), y, n_repeat=3), back.__getitem__ if back else (lambda x: x))
            return out
        ref = both(cols, None)
        for names in itertools.permutations(TRICKY[case[5]]):
            same(both(names, dict(zip(names, cols))), ref, "features renamed to %r, same random_state" % (names,))
            self.done(ctx, case, names, ref)

    # -- trees
    def ensemble(self, ens, pkg):
        shapes = list(tg.shapes(4)) + list(tg.shapes(3))
        out = []
        for t in range(3):
            lab = []
            for k in range(4):
                g = abs(generic((ens * 12 + t * 4 + k) % 70))
                f = (g + k * (1 + ens % 2)) % 3
                lab.append(f if pkg == "rf" else (f, float(1 + g % 9), float(1 + g % 29)))
            out.append(tg.relabel(shapes[(ens * 3 + t * 5) % len(shapes)], lab))
        return out

    def tree_results(self, pkg, names, trees, back):
        out = {}
        b = back.__getitem__ if back else (lambda x: x)
        if pkg == "rf":
            m = env.ConditionalMinimalDepthMethod()
            m.fit(fitted.rf_model(3, trees, names))
            return canon(m, back)
        for metric in boosted.INTER:
            if pkg == "lgb" and metric in boosted.COVER:
                continue
            for od in (True, False):
                m = env.SplitScoreMethod()
                m.fit(fitted.gb_model(pkg, 3, trees, names), interaction_selected_metric=metric, only_def_interactions=od)
                for k, v in canon(m, back).items():
                    out[(metric, od, k)] = v
        for metric in boosted.IMP:
            if pkg == "lgb" and metric in boosted.COVER:
                continue
            df = env.SplitScoreImportance().importance(env.GBTreesHandler(fitted.gb_model(pkg, 3, trees, names)), selected_metric=metric)
            out[("imp", metric)] = canon_imp(df, b)
        return {str(k): v for k, v in out.items()}

    def trees(self, case, ctx):
        _, pkg, ens = case
        ts = self.ensemble(ens, pkg)
        ref = self.tree_results(pkg, BASE[:3], ts, None)
        for p in itertools.permutations(range(3)):
            same(self.tree_results(pkg, BASE[:3], [ts[i] for i in p], None), ref, "%s trees in order %r" % (pkg, p))
            self.done(ctx, case, p, ref)
        for p in itertools.permutations(range(3)):
            names = tuple(BASE[i] for i in p)       # feature j of the original is column p.index(j) now

            def move(t):
                if t is None:
                    return None
                lab = p.index(t[0]) if pkg == "rf" else (p.index(t[0][0]),) + t[0][1:]
                return (lab, move(t[1]), move(t[2]))
            same(self.tree_results(pkg, names, [move(t) for t in ts], None), ref, "%s columns in order %r" % (pkg, names))
            self.done(ctx, case, ("cols", p), ref)

    def treenames(self, case, ctx):
        _, pkg, i = case
        ts = self.ensemble(i, pkg)
        ref = self.tree_results(pkg, BASE[:3], ts, None)
        for names in itertools.permutations(TRICKY_TREE[i]):
            same(self.tree_results(pkg, names, ts, dict(zip(names, BASE[:3]))), ref, "%s features renamed to %r" % (pkg, names))
            self.done(ctx, case, names, ref)
