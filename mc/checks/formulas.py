"""C04-C08: every small model x every small data set against the definitions in exact arithmetic.
C28: prediction function selection."""
import itertools

import numpy as np
import matplotlib.pyplot as plt
from .. import env, fitted
from ..core import Violation, expect
from ..domain import (Ref, TableModel, ContractError, all_pairs, close, feature_table, frame, generic, grid, make_table,
                      multisets, pair_table, same_table, is_numeric)

# value alphabets of a column by type code
DOM = {
    "i2": (0, 1), "i3": (0, 1, 2), "n2": (-2, 3), "f2": (0.5, -1.25), "s2": ("x", "y"), "s3": ("q", "x", "a"),
    "b2": (False, True), "one": (7,), "sone": ("k",), "f3": (-0.5, 1e-3, 1000.0), "S2": ("10", "9"), "i4": (4, 2, 1, 9),
    "near": (250000.0, 250001.0, 250000.5), "tiny": (0.0, 1e-12, 3e-12), "big": (2 ** 53, 2 ** 53 + 1), "S3": ("x", "X", "x "),
    "i12": tuple(k * k - 7 for k in range(12)), "s12": tuple("k%d" % k for k in range(12)), "i30": tuple(range(-10, 20)),
    "f120": tuple(0.25 * k * k - 3 * k for k in range(120)), "s60": tuple("v%d" % k for k in range(60)),
    "o2": (1, 0), "o3": (3, 1, 2),      # numbers in a column of type object
    "f9": tuple(0.1 * k + 1e-6 * k * k for k in range(9)),
}


def designs_3():
    """Data sets over three binary features (rows as indices into the grid), chosen to include repeated rows,
    a constant feature, correlated features, unordered rows."""
    return [(0, 7), (0, 3, 5), (1, 2, 4, 7), (0, 0, 7), (6, 1, 6, 3), (2, 3), (5, 0, 3, 6)]


def enumerate_worlds(tier):
    """(type codes, features argument, row index kind, rows as grid indices, table values): simplest first."""
    quick = tier == "quick"
    # 1. two binary features: every table over three output levels x every multiset of rows
    g4 = range(4)
    for rows in multisets(g4, (1, 2, 3) if quick else (1, 2, 3, 4, 5)):
        for vals in itertools.product((0, 1, 3), repeat=4):
            yield (("i2", "i2"), None, "range", rows, vals)
    for rows in multisets(g4, (4,)):
        for vals in itertools.product((0, 1), repeat=4):
            yield (("i2", "i2"), None, "range", rows, vals)
    # 2. 3 x 2 values: every 0/1 table x every multiset of up to 3 rows
    for rows in multisets(range(6), (2, 3) if quick else (2, 3, 4)):
        if len({r // 2 for r in rows}) < 2:
            continue
        for vals in itertools.product((0, 1), repeat=6):
            if quick and (vals[0] or len(rows) == 3 and rows[0] != 0):      # model negation symmetry / smaller slice
                continue
            yield (("i3", "i2"), None, "range", rows, vals)
    # 3. types, row labels, feature orders and subsets
    types = [("s2", "i2"), ("i2", "s2"), ("s2", "s2"), ("b2", "i2"), ("b2", "s2"), ("f2", "n2"), ("f2", "s2"),
             ("S2", "b2"), ("n2", "b2"), ("one", "i2"), ("i2", "sone"), ("i2", "one"), ("one", "sone"), ("o2", "i2"), ("s2", "o2")]
    rowsets = [(3, 0), (2, 1, 0), (3, 1, 0), (1, 3, 2, 0), (2, 2, 1), (0, 3, 3, 1)]
    for t in types:
        size = len(DOM[t[0]]) * len(DOM[t[1]])
        for rows in rowsets:
            rr = tuple(r % size for r in rows)
            for vals in itertools.product((0, 1), repeat=size) if size == 4 else itertools.product((0, 1, 3), repeat=size):
                yield (t, None, "dup", rr, vals)
                if sum(vals) % 2:
                    yield (t, (1, 0), "str", rr, vals)
    for t in [("i3", "s2"), ("s3", "i2"), ("f3", "i2"), ("s3", "s2"), ("i3", "i3"), ("s3", "i3"), ("i4", "s2"),
              ("near", "i2"), ("tiny", "near"), ("big", "S3"), ("o3", "i2"), ("i3", "o2"), ("o3", "o2")]:
        k = len(DOM[t[0]]) * len(DOM[t[1]])
        n2 = len(DOM[t[1]])
        full = tuple(range(k))[::-1]
        diag = tuple((i * n2 + i % n2) for i in range(len(DOM[t[0]])))
        for rows in (full, diag, diag + diag[:1], full[1:] + (0, 0)):
            for one in range(k):                       # every table with one or two raised cells
                yield (t, None, "reversed", rows, tuple(3 if i == one else 0 for i in range(k)))
            for one, two in itertools.combinations(range(k), 2):
                if quick and (one + two) % 3:
                    continue
                yield (t, (1, 0), "range", rows, tuple(5 if i == one else -2 if i == two else 1 for i in range(k)))
            yield (t, None, "shuffled", rows, tuple(generic(i) for i in range(k)))
    # 4. three binary features: every 0/1 table x selected data sets; feature subsets and orders
    for d in designs_3()[:3] if quick else designs_3():
        for vals in itertools.product((0, 1), repeat=8):
            if quick and vals[0]:
                continue
            yield (("i2", "i2", "i2"), None, "range", d, vals)
    for t in [("i2", "s2", "i2"), ("s2", "b2", "f2"), ("i3", "s2", "n2"), ("i2", "i2", "i2")]:
        k = len(DOM[t[0]]) * len(DOM[t[1]]) * len(DOM[t[2]])
        for d in designs_3():
            for feats in (None, (2, 0), (0, 2), (1, 2), (2, 1, 0), (1, 0, 2)):
                for shift in ((0, 11) if quick else (0, 11, 23, 37, 41, 53)):
                    yield (t, feats, "dup2", tuple((r * 3) % k for r in d), tuple(generic(i + shift) for i in range(k)))
    # 5. four features, additive / single-interaction / generic models
    for feats in (None, (3, 1), (2, 0, 3), (3, 2, 1, 0)):
        for shape in ("add", "pair", "generic", "const", "one"):
            for d in ((0, 5, 10, 15), (3, 9, 12), (1, 2, 4, 8, 8)):
                yield (("i2", "s2", "i2", "f2"), feats, "range", d, shape)
    # 6. the same models in other units and far from zero
    for how, c in (("mul", -30), ("mul", 30), ("off", 10 ** 7), ("off", -123456789)):
        for t in [("i2", "i2"), ("i3", "s2"), ("s2", "f2"), ("i2", "s2", "i2")]:
            k = 1
            for x in t:
                k *= len(DOM[x])
            for rows in (tuple(range(k))[::-1], (0, k - 1), (k - 1, 1, 0, 2), (0, 0, k - 1, 1, 2, 3)):
                for shift in (0, 17):
                    yield (t, None, "dup", rows, (how, c, tuple(generic(i + shift) % 5 for i in range(k))))
                yield (t, (1, 0), "range", rows, (how, c, tuple(int(i == 1) for i in range(k))))
    yield from larger_worlds(quick)
    if not quick:
        for rows in multisets(range(9), (2, 3)):
            for shift in range(20):
                yield (("i3", "i3"), None, "range", rows, tuple(generic(i + shift) for i in range(9)))


NAMES = ("a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o")


def spread(n, size, step=1):
    """n grid indices spread over a grid of the given size, in no particular order."""
    return tuple((i * (step * 7919 + 13) + (i * i) % 11) % size for i in range(n))


def larger_worlds(quick):
    """Worlds beyond the exhaustive part: many features (21-66 pairs), many distinct values, many rows."""
    for n in (5, 9) if quick else (5, 9, 14):
        for shape in ("gen", "add", "ties", "sparse"):
            for nf, feats in ((7, None), (7, (6, 0, 3, 5, 1, 2)), (12, None)):
                if quick and nf == 12 and (n, shape) not in ((5, "gen"), (9, "sparse"), (5, "ties")):
                    continue
                yield (("i2",) * nf, feats, "dup2", spread(n, 2 ** nf), shape)
            yield (("i2", "s2", "b2", "i3", "f2", "one"), None, "shuffled", spread(n, 48), shape)
    for t in (("i12", "i12"), ("i12", "s12"), ("s12", "f9"), ("i30", "i2"), ("s12", "i2", "i12"), ("f9", "f9", "i3")):
        k = 1
        for x in t:
            k *= len(DOM[x])
        for n in (17, 40) if quick else (17, 40, 130):
            for step in (1, 3):
                yield (t, None, "str", spread(n, k, step), "gen")
                if n == 17:
                    yield (t, tuple(range(len(t)))[::-1], "range", spread(n, k, step), "sparse" if len(t) > 2 else "ties")
    for t in (("f120", "i2"), ("s60", "i3"), ("i30", "s60")):
        yield (t, None, "str", spread(128, len(DOM[t[0]]) * len(DOM[t[1]])), "gen")
    for nf, n, shape in ((14, 6, "gen"), (15, 5, "sparse")):
        yield (("i2",) * nf, None, "range", spread(n, 2 ** nf), shape)
    for n in (101, 260) if quick else (101, 260, 500):
        yield (("i3", "s2", "i2"), None, "range", spread(n, 12), "gen")
        yield (("i4", "i3"), None, "dup", spread(n, 12), "gen")
        yield (("i12", "i3"), (1, 0), "dup", spread(n, 36), "gen")


def shape_values(shape, g):
    """Model values on the grid g by position of each value in its domain (works for any type)."""
    doms = [sorted({r[j] for r in g}) for j in range(len(g[0]))]
    idx = [tuple(doms[j].index(v) for j, v in enumerate(r)) for r in g]
    last = len(doms) - 1
    return {"gen": lambda: [generic((i * i * 31 + i * 7 + i // 8) % 70) + generic(i % 67) / 4 for i in range(len(g))],
            "add": lambda: [sum((j + 1) * (-1) ** j * v for j, v in enumerate(r)) for r in idx],
            "ties": lambda: [sum(r) ** 2 for r in idx],
            "sparse": lambda: [3 * r[0] * r[last] - 2 * r[1] + (5 * r[1] * r[2] * r[0] if last > 1 else 0) for r in idx]}[shape]()


def build(case):
    t, feats, kind, rows, vals = case
    doms = [DOM[x] for x in t]
    g = grid(doms)
    if vals[0] == "mul":
        vals = [v * 2.0 ** vals[1] for v in vals[2]]
    elif vals[0] == "off":
        vals = [v + vals[1] for v in vals[2]]
    elif isinstance(vals, str):
        if len(t) != 4:
            vals = shape_values(vals, g)
        elif vals == "add":
            vals = [3 * i[0] + (2 if i[1] == "x" else -1) + 5 * i[2] + 4 * i[3] for i in g]
        elif vals == "pair":
            vals = [3 * i[0] * i[2] + (2 if i[1] == "x" else -1) for i in g]
        elif vals == "const":
            vals = [2] * len(g)
        elif vals == "one":
            vals = [7 * i[0] for i in g]
        else:
            vals = [generic(i) for i in range(len(g))]
    # column order: last code first for wider tables, so that column order is not alphabetical
    cols = NAMES[:len(t)] if len(t) < 3 else NAMES[:len(t)][::-1]
    rws = [g[r] for r in rows]
    table = {k: v for k, v in zip(g, vals)}
    features = None if feats is None else [cols[i] for i in feats]
    return cols, rws, table, features, kind


class Formula:
    chunk = 400
    rule = ("a case is (column types, features argument, row labels, data rows, model table); non-trivial: the "
            "expected result contains a value other than 0, by distinct case")
    assumptions = ["no missing values in the data; predictions are finite",
                   "expected values computed in exact rational arithmetic from the definition; 1e-9 relative tolerance"]

    def bound(self, tier):
        return ("2 binary features: every {0,1,3}-valued model x every multiset of 1-3 rows and every {0,1}-valued model x "
                "4 rows; 3x2 values: {0,1}-valued models (up to negation in quick) x 2-3 row data sets; 15+13 type "
                "combinations (int, float, numbers as objects, negative, string, numeric-looking string, bool, constant) x 6-4 data sets; "
                "3 binary features: every {0,1}-valued model (up to negation in quick) x %d data sets; feature subsets "
                "and orders; 4 features: 5 model shapes; models in other units (2^-30, 2^30) and far from zero; beyond: 6-15 features, up to 120 values per feature, up to %d rows" % ((3, 260) if tier == "quick" else (7, 500)))

    def heavy(self, case):
        return len(case[3]) > 30 or len(case[0]) > 6

    def cases(self, tier):
        return list(enumerate_worlds(tier))

    def same(self, got, want, what, scales=True):
        u = self.unit if scales else 1.0
        same_table({k: v / u for k, v in got.items()}, {k: v / u for k, v in want.items()}, what, self.tol)

    def run(self, case, ctx):
        cols, rows, table, features, kind = build(case)
        X = frame(cols, rows, kind)
        objects = [c for c, t in zip(cols, case[0]) if t[0] == "o" and t != "one"]
        X = X.astype({c: object for c in objects})
        model = TableModel(cols, table)
        ref = Ref(cols, rows, table, objects)
        # far from zero rounding grows; in other units results scale exactly
        how = case[4][0]
        self.unit, self.tol = 2.0 ** case[4][1] if how == "mul" else 1.0, 1e-6 if how == "off" else 1e-9
        feats = features or list(cols)
        want = self.check(ctx, model, X, ref, features, feats, case)
        if not want:
            return
        ctx.trace()
        key = tuple(sorted((str(sorted(k) if isinstance(k, frozenset) else k), round(v, 9)) for k, v in want.items()))
        ctx.state((case[0], key))
        ctx.seen("distinct_results", hash(key))
        if any(abs(v) > 1e-9 for v in want.values()):
            ctx.nt(case)
        ctx.sample = {"expected": {str(sorted(k) if isinstance(k, frozenset) else k): v for k, v in want.items()}}


class C04(Formula):
    id = "C04"

    def check(self, ctx, model, X, ref, features, feats, case):
        want = {}
        for normalized in (True, False):
            m = env.FriedmanHStatisticMethod(normalized=normalized)
            m.fit(model, X, features=features, calculate_ova=False)
            ctx.step()
            want = {p: ref.h_pair(*sorted(p), normalized=normalized) for p in all_pairs(feats)}
            self.same(pair_table(m.ovo, col=m.method), want,
                      "H-statistic" if normalized else "unnormalized H-statistic", not normalized)
        return {p: ref.h_pair(*sorted(p)) for p in all_pairs(feats)} | {("u",) + tuple(sorted(k)): v
                                                                      for k, v in want.items()}


class C05(Formula):
    id = "C05"

    def check(self, ctx, model, X, ref, features, feats, case):
        full = {}
        for normalized in (True, False):
            m = env.FriedmanHStatisticMethod(normalized=normalized)
            m.fit(model, X, features=features)
            ctx.step()
            want = {c: ref.h_ova(c, normalized) for c in feats}
            expect(m.ova is not None, "one-vs-all result missing")
            self.same(feature_table(m.ova, m.method), want,
                      "one-vs-all" if normalized else "unnormalized one-vs-all", not normalized)
            full.update({(c, normalized): v for c, v in want.items()})
        if len(case[3]) == 2 and case[2] != "range":
            m = env.FriedmanHStatisticMethod()
            m.fit(model, X, features=features, calculate_ova=False)
            ctx.step()
            expect(m.ova is None, "one-vs-all result present although not requested")
        return full


class C06(Formula):
    id = "C06"

    def check(self, ctx, model, X, ref, features, feats, case):
        m = env.GreenwellMethod()
        m.fit(model, X, features=features)
        ctx.step()
        want = {p: ref.greenwell(*sorted(p)) for p in all_pairs(feats)}
        self.same(pair_table(m.ovo, col=m.method), want, "Greenwell")
        return want


class C07(Formula):
    id = "C07"

    def check(self, ctx, model, X, ref, features, feats, case):
        want = {c: ref.importance(c) for c in feats}
        obj = env.PartialDependenceBasedImportance()
        got = obj.importance(model, X, features=features)
        ctx.step()
        self.same(feature_table(got), want, "importance")
        self.same(feature_table(obj.feature_importance), want, "stored importance")
        if case[2] != "range" or len(case[0]) > 2 or len(case[3]) < 3:
            for m in (env.FriedmanHStatisticMethod(), env.GreenwellMethod()):
                if isinstance(m, env.FriedmanHStatisticMethod):
                    m.fit(model, X, features=features, calculate_ova=False)
                else:
                    m.fit(model, X, features=features)
                ctx.step()
                self.same(feature_table(m.feature_importance), want, "importance within " + m.method)
        return want


class C08(Formula):
    id = "C08"

    def cases(self, tier):
        seen = set()
        out = []
        for c in enumerate_worlds(tier):
            c = (c[0], None) + tuple(c[2:])
            if c not in seen:
                seen.add(c)
                out.append(c)
        return out

    def check(self, ctx, model, X, ref, features, feats, case):
        want = ref.additivity()
        if want is None:
            ctx.count("constant_predictions_skipped")
            return {}
        m = env.AdditivityMeter()
        got = m.fit(model, X)
        ctx.step()
        expect(close(got, want, self.tol), "additivity index %r, by definition %r", got, want)
        expect(close(m.additivity_index, want, self.tol), "stored additivity index %r, by definition %r", m.additivity_index, want)
        rows = ref.additivity_rows()
        expect(len(m.full_result) == len(rows), "full result has %d rows for %d", len(m.full_result), len(rows))
        for j, c in enumerate(list(ref.cols) + ["centered_prediction"]):
            expect(c in m.full_result.columns, "full result lacks %s", c)
            for i, v in enumerate(m.full_result[c].tolist()):
                expect(close(v / self.unit, rows[i][j] / self.unit, self.tol), "full result %s row %d is %r, by definition %r", c, i, v, rows[i][j])
        return {"index": want}


# ------------------------------------------------------------------------------------------------- C28
class BothModel(TableModel):
    """Offers the interfaces named in `offers`, each with its own table."""

    def __init__(self, cols, tables, offers, manner=0):
        super().__init__(cols, tables["predict"])
        if manner == 1:         # what fitted scikit-learn classifiers and regressors carry besides
            self.classes_, self.n_classes_ = np.arange(3 if "proba3" in offers else 2), 3 if "proba3" in offers else 2
            self._estimator_type = "classifier"
            self.decision_function = self._never
            self.predict_log_proba = self._never
        elif manner == 2:
            self._estimator_type = "regressor"
            self.n_features_in_, self.feature_names_in_ = len(cols), np.array(cols, dtype=object)
        self.tables = tables
        self.used = []
        if "predict" in offers:
            self.predict = lambda X: self._use("predict", X)
        else:
            self.predict = None
            del self.predict
        if "proba" in offers:
            self.predict_proba = self._proba
        if "proba3" in offers:
            self.predict_proba = self._proba3

    def __getattribute__(self, name):
        if name == "predict" and "predict" not in object.__getattribute__(self, "__dict__"):
            raise AttributeError(name)
        return object.__getattribute__(self, name)

    def _never(self, X):
        raise AssertionError("another interface than predict and predict_proba was used")

    def _use(self, name, X):
        self.used.append(name)
        return self._answer(X, self.tables[name])

    def _proba(self, X):
        p = self._use("proba", X)
        return np.column_stack([p * 2 + 1000, p])

    def _proba3(self, X):
        p = self._use("proba", X)
        return np.column_stack([p * 2 + 1000, p, 1000 - 3 * p])


class C28:
    id = "C28"
    rule = ("a case is (interfaces offered, prediction function given, explanation, data set, tables); non-trivial: at "
            "least two interfaces are available, so the wrong one would give other numbers; by distinct case")
    assumptions = ["the interfaces answer with different tables, so any mixture shows in the numbers"]
    chunk = 100

    def bound(self, tier):
        return ("offers: predict / predict_proba (2 or 3 classes) / both, bare or with the attributes of scikit-learn classifiers or regressors, function given or not, 8 explanations, own or shared "
                "calculator, profiles and zenplots, with feature selections, sampling, small batches, %d tables x 6 data sets of up to 40 rows" % (6 if tier == "quick" else 24))

    def cases(self, tier):
        out = []
        designs = [(("i2", "i2"), (0, 1, 3)), (("i2", "s2"), (0, 3, 2, 1)), (("i2", "i2", "s2"), (0, 5, 6)),
                   (("s2", "b2"), (0, 1, 2, 3)), (("f2", "n2"), (3, 0)), (("i12", "s2"), spread(40, 24))]
        for t, rows in designs:
            for shift in range(0, 6 if tier == "quick" else 24):
                for offers in (("predict",), ("proba",), ("predict", "proba"), ("predict", "proba3")):
                    for given in (False, True):
                        for what in ("friedman", "greenwell", "importance", "additivity", "calculator", "shared",
                                     "sejong", "permutation"):
                            if what in ("sejong", "permutation") and ("predict" not in offers or given):
                                continue
                            out.append((t, rows, shift * 5, offers, given, what))
                        if shift > 1 and tier == "quick":
                            continue
                        for opt in ("sub", "n", "batch"):
                            for what in ("friedman", "noova", "greenwell", "importance", "additivity"):
                                if opt != "n" or len(rows) > 3:
                                    out.append((t, rows, shift * 5, offers, given, what, opt))
                        for what in ("shared greenwell", "shared importance", "shared additivity", "plots friedman", "plots greenwell"):
                            out.append((t, rows, shift * 5, offers, given, what))
        return out

    def run(self, case, ctx):
        t, rows, shift, offers, given, what = case[:6]
        opt = case[6] if len(case) > 6 else None
        doms = [DOM[x] for x in t]
        g = grid(doms)
        cols = NAMES[:len(t)]
        rws = [g[r] for r in rows]
        tables = {"predict": {k: generic((i + shift) % 70) for i, k in enumerate(g)},
                  "proba": {k: generic((i + shift + 17) % 70) for i, k in enumerate(g)},
                  "given": {k: generic((i + shift + 31) % 70) for i, k in enumerate(g)}}
        model = BothModel(cols, tables, offers, shift // 5 % 3)
        fn_models = []

        def fn(m, X):
            fn_models.append(m)
            return model._use("given", X)

        expected = "given" if given else "proba" if len(offers) > 1 or offers == ("proba",) else "predict"
        X = frame(cols, rws)
        pf = fn if given else None
        if what in ("sejong", "permutation"):
            expected = "predict"
        ref = Ref(cols, rws, tables[expected])
        feats = list(cols)
        kw = {"predict_function": pf}
        if opt == "sub":
            feats = feats[::-1][:2]
            if what != "additivity":
                kw["features"] = feats
        elif opt == "n":
            kw["n"] = len(rws) - 1
        elif opt == "batch":
            kw["batchsize"] = 3
        calc = env.PartialDependenceCalculator(model, X, pf) if what.startswith("shared") else None
        if calc is not None:
            kw["pd_calculator"] = calc
        what = what.split()[-1] if what != "shared" else "friedman"
        show = case[5].startswith("plots")

        def drawn(m):
            if opt == "n":
                return Ref(cols, list(zip(*[m.X_sampled[c].tolist() for c in cols])), tables[expected])
            return ref
        if what in ("friedman", "noova"):
            m = env.FriedmanHStatisticMethod()
            if what == "noova":
                kw["calculate_ova"] = False
            m.fit(model, X, **kw)
            ref = drawn(m)
            ctx.step()
            same_table(pair_table(m.ovo, col=m.method), {p: ref.h_pair(*sorted(p)) for p in all_pairs(feats)}, what)
            if what != "noova":
                same_table(feature_table(m.ova, m.method), {c: ref.h_ova(c) for c in feats}, what + " one-vs-all")
            same_table(feature_table(m.feature_importance), {c: ref.importance(c) for c in feats}, what + " importance")
        elif what == "greenwell":
            m = env.GreenwellMethod()
            m.fit(model, X, **kw)
            ref = drawn(m)
            ctx.step()
            same_table(pair_table(m.ovo, col=m.method), {p: ref.greenwell(*sorted(p)) for p in all_pairs(feats)}, what)
            same_table(feature_table(m.feature_importance), {c: ref.importance(c) for c in feats}, what + " importance")
        elif what == "importance":
            m = env.PartialDependenceBasedImportance()
            r = m.importance(model, X, **kw)
            ref = drawn(m)
            ctx.step()
            same_table(feature_table(r), {c: ref.importance(c) for c in feats}, what)
        elif what == "additivity":
            a = env.AdditivityMeter()
            r = a.fit(model, X, **kw)
            ref = drawn(a)
            ctx.step()
            expect(ref.additivity() is None or close(r, ref.additivity()), "additivity %r instead of %r", r, ref.additivity())
        elif what == "calculator":
            calc = env.PartialDependenceCalculator(model, X, pf)
            calc.calculate_pd_single()
            calc.calculate_pd_pairs()
            calc.calculate_pd_minus_single()
            ctx.step(3)
            for c in cols:
                for v, x in zip(ref.values(c), calc.get_pd_single(c)):
                    expect(close(x, ref.pd1(c, v)), "PD %s=%r is %r instead of %r", c, v, x, float(ref.pd1(c, v)))
        elif what == "sejong":
            env.SejongOhMethod(random_state=1).fit(model, X, np.arange(len(rws)), n_repeat=1)
            ctx.step()
        else:
            env.PermutationImportance(random_state=1).importance(model, X, np.arange(len(rws)), n_repeat=1)
            ctx.step()
        if show:
            with fitted.quiet():
                for c in feats:
                    m.plot_profile(c)
                for c1, c2 in itertools.permutations(feats, 2):
                    m.plot_profile(c1, c2)
                m.plot_zenplot()
            plt.close("all")
            ctx.step(3)
        expect(set(model.used) == {expected}, "%s asked %s, expected only %s", what, sorted(set(model.used)), expected)
        expect(all(m is model for m in fn_models), "the prediction function was given another model")
        ctx.trace()
        ctx.state((offers, given, what, t, tuple(model.used)))
        if len(offers) > 1 or given:
            ctx.nt(case)
        ctx.sample = {"interfaces_used": sorted(set(model.used)), "prediction_calls": len(model.used)}
