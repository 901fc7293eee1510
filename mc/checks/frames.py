"""C30: every frame the model is asked about looks like the data, for all combinations of column types.
C31: the form in which predictions and targets come never matters."""
import itertools

import numpy as np
import pandas as pd

from .. import env, fitted
from ..core import Violation, expect
from ..domain import Ref, all_pairs, close, feature_table, generic, grid, make_index, pair_table, same_table

B = 2 ** 53
KINDS = {       # kind -> (values, counts as numeric, column from a list of values)
    "i64": ((0, 1, 2), True, lambda v: np.array(v, dtype="int64")),
    "i8": ((-3, 5, 100), True, lambda v: np.array(v, dtype="int8")),
    "u64": ((1, B + 1, 2 ** 63 + 4097), True, lambda v: np.array(v, dtype="uint64")),
    "big": ((B, B + 1, -B - 1), True, lambda v: np.array(v, dtype="int64")),
    "f32": ((0.5, 0.25, -1.0), True, lambda v: np.array(v, dtype="float32")),
    "f64": ((0.1, 0.2, 0.30000000000000004), True, lambda v: np.array(v, dtype="float64")),
    "bool": ((False, True), True, lambda v: np.array(v, dtype=bool)),
    "obj": (("y", "x", "z"), False, lambda v: np.array(v, dtype=object)),
    "oint": ((3, 1, 2), False, lambda v: np.array(v, dtype=object)),
    "cat": (("u", "v", "a"), False, lambda v: pd.Categorical(v, categories=["w", "v", "u", "a"])),
    "ocat": (("lo", "hi", "mid"), False, lambda v: pd.Categorical(v, categories=["lo", "mid", "hi"], ordered=True)),
    "icat": ((1, 2, 10), False, lambda v: pd.Categorical(v, categories=[10, 1, 2, 3])),
    "str": (("p", "q", "r"), False, lambda v: pd.array(v, dtype="string")),
    "date": (tuple(pd.Timestamp(2020, 1, d) for d in (3, 1, 2)), False, lambda v: pd.to_datetime(list(v))),
    "nan": ((0.5, "NA", 2.0), True, lambda v: np.array([np.nan if x == "NA" else x for x in v], dtype="float64")),
    "nan32": ((0.5, 3.0, "NA"), True, lambda v: np.array([np.nan if x == "NA" else x for x in v], dtype="float32")),
    "I64": ((4, 1, 2), True, lambda v: pd.array(v, dtype="Int64")),
}
WIDE = {        # the same types with many values
    "i64w": (tuple(B - 10 + 3 * i for i in range(24)), True, lambda v: np.array(v, dtype="int64")),
    "i8w": (tuple(range(-60, 36, 4)), True, lambda v: np.array(v, dtype="int8")),
    "f32w": (tuple(float(np.float32(0.1 * i)) for i in range(24)), True, lambda v: np.array(v, dtype="float32")),
    "objw": (tuple("v%d" % (i * 7 % 24) for i in range(24)), False, lambda v: np.array(v, dtype=object)),
    "catw": (tuple("c%d" % i for i in range(24)), False, lambda v: pd.Categorical(v, categories=["c%d" % i for i in range(30)][::-1])),
    "datew": (tuple(pd.Timestamp(2020, 1, 1 + i) for i in range(24)), False, lambda v: pd.to_datetime(list(v))),
}
KINDS_ALL = dict(KINDS, **WIDE)
DESIGNS = ((0, 4, 8), (5, 0, 7, 3), (1, 1, 6, 8, 2))


class KindRef(Ref):
    """The reference model, with the type of every column given."""

    def __init__(self, cols, rows, table, numeric):
        super().__init__(cols, rows, table)
        self.num = numeric

    def values(self, c):
        return sorted({r[self.pos[c]] for r in self.rows}, key=repr)

    def importance(self, c):
        prof = [self.pd1(c, v) for v in self.values(c)]
        return float(np.sqrt(float(self.var(prof, 0)))) if self.num[c] else float((max(prof) - min(prof)) / 4)

    def greenwell(self, c1, c2):
        from ..domain import fstd
        v1, v2 = self.values(c1), self.values(c2)
        over1 = [self._cond([self.pd2(c1, x, c2, y) for y in v2], self.num[c2]) for x in v1]
        over2 = [self._cond([self.pd2(c1, x, c2, y) for x in v1], self.num[c1]) for y in v2]
        return (fstd(over1) + fstd(over2)) / 2


class StrictModel:
    """Answers by table; refuses frames that do not look like the data."""

    def __init__(self, X, table):
        self.cols, self.dtypes, self.table, self.frames = list(X.columns), list(X.dtypes), table, 0

    def predict(self, Z):
        if not isinstance(Z, pd.DataFrame):
            raise Violation("the model was asked about a %s" % type(Z).__name__)
        if list(Z.columns) != self.cols:
            raise Violation("the model was asked about columns %r instead of %r" % (list(Z.columns), self.cols))
        if list(Z.dtypes) != self.dtypes:
            raise Violation("the model was asked about columns of types %r instead of %r" % (list(map(str, Z.dtypes)),
                                                                                         list(map(str, self.dtypes))))
        self.frames += 1
        rows = list(zip(*[["NA" if x != x else x for x in Z[c].tolist()] for c in self.cols]))
        for r in rows:
            if r not in self.table:
                raise Violation("the model was asked about %r, which combines no observed values" % (r,))
        return np.array([self.table[r] for r in rows], dtype=float)


def world(kinds, d, coded=False):
    doms = [KINDS_ALL[k][0] for k in kinds]
    g = grid([range(len(x)) for x in doms])
    idx = [g[(i * len(g) // 9) % len(g)] for i in DESIGNS[d]] if d < 3 else [g[(i * 131 + i * i % 7) % len(g)] for i in range(40)]
    cols = ["q", "a", "m"][:len(kinds)]
    vals = [generic((i * 13 + d * 5 + sum(map(ord, "".join(kinds)))) % 70) / 4.0 for i in range(len(g))]
    if coded:
        X = pd.DataFrame({c: [r[j] for r in idx] for j, c in enumerate(cols)})
        return X, dict(zip(g, vals)), idx, cols
    val = lambda r: tuple(KINDS_ALL[k][0][i] for k, i in zip(kinds, r))
    X = pd.DataFrame({c: KINDS_ALL[k][2]([KINDS_ALL[k][0][r[j]] for r in idx]) for j, (c, k) in enumerate(zip(cols, kinds))})
    if d:
        X.index = make_index(("dup2", "str", "dup")[d - 1], len(X))
    return X, {val(r): v for r, v in zip(g, vals)}, [val(r) for r in idx], cols


AGN = ("F", "G", "I", "A", "P", "S")


class C30:
    id = "C30"
    chunk = 40
    rule = ("a case is (column types, data design, explanation); all frames shown to the model are inspected; non-trivial: "
            "columns of more than one type, by distinct case")
    assumptions = ["missing values occur in float columns only"]

    def bound(self, tier):
        return ("all ordered pairs of %d column types (integers of four widths and beyond 2^53, float32/64, bool, object, string, "
                "plain/ordered/integer categories, dates, nullable integers, floats with missing values)%s x %d designs x 6 explanations; 40 rows and 24 values of 6 types" % (
                    len(KINDS), " and a fixed ninth of the triples" if tier == "quick" else " and all triples", 2 if tier == "quick" else 3))

    def cases(self, tier):
        out = []
        for t in itertools.product(KINDS, repeat=2):
            for d in (0, 1) if tier == "quick" else (0, 1, 2):
                for code in AGN:
                    out.append((t, d, code))
        for t in itertools.product(WIDE, tuple(WIDE) + ("bool", "nan")):
            for code in AGN:
                out.append((t, 3, code))
        for t in itertools.product(KINDS, repeat=3):
            if tier == "quick" and sum(map(ord, "".join(t))) % 9:
                continue
            for code in AGN:
                out.append((t, 1, code))
        return out

    def run(self, case, ctx):
        kinds, d, code = case
        X, table, rows, cols = world(kinds, d)
        before = X.copy(deep=True)
        model = StrictModel(X, table)
        ref = KindRef(cols, rows, table, {c: KINDS_ALL[k][1] for c, k in zip(cols, kinds)})
        with fitted.quiet():
            if code == "F":
                m = env.FriedmanHStatisticMethod()
                m.fit(model, X)
                same_table(pair_table(m.ovo), {p: ref.h_pair(*sorted(p)) for p in all_pairs(cols)}, "H-statistic")
                same_table(feature_table(m.ova, m.method), {c: ref.h_ova(c) for c in cols}, "one-vs-all")
                same_table(feature_table(m.feature_importance), {c: ref.importance(c) for c in cols}, "importance")
            elif code == "G":
                m = env.GreenwellMethod()
                m.fit(model, X)
                same_table(pair_table(m.ovo), {p: ref.greenwell(*sorted(p)) for p in all_pairs(cols)}, "Greenwell", 1e-7)
            elif code == "I":
                df = env.PartialDependenceBasedImportance().importance(model, X)
                same_table(feature_table(df), {c: ref.importance(c) for c in cols}, "importance")
            elif code == "A":
                want = ref.additivity()
                got = env.AdditivityMeter().fit(model, X)
                expect(want is None or close(got, want), "additivity is %r, by definition %r", got, want)
            else:
                Y, ctable, _, _ = world(kinds, d, True)
                y = np.array([table[r] + i / 4.0 for i, r in enumerate(rows)])

                def go(model, X):
                    if code == "P":
                        return feature_table(env.PermutationImportance(random_state=5).importance(model, X, y, n_repeat=3))
                    m = env.SejongOhMethod(random_state=5)
                    m.fit(model, X, y, n_repeat=2)
                    return {**pair_table(m.ovo), **feature_table(m.feature_importance)}
                same_table(go(model, X), go(StrictModel(Y, ctable), Y), "against the same data with the values numbered")
        expect(X.equals(before) and list(X.dtypes) == list(before.dtypes), "the data were changed")
        expect(model.frames > 0, "the model was never asked")
        ctx.step(model.frames)
        ctx.trace()
        ctx.state(case)
        if len(set(kinds)) > 1:
            ctx.nt(case)
        ctx.sample = {"frames_inspected": model.frames, "types": list(map(str, X.dtypes))}


# ---------------------------------------------------------------- C31
FORMS = {
    "list": lambda: lambda p, Z: p.tolist(),
    "series": lambda: lambda p, Z: pd.Series(p, index=Z.index),
    "own-index": lambda: lambda p, Z: pd.Series(p),
    "reversed-index": lambda: lambda p, Z: pd.Series(p, index=range(len(p))[::-1]),
    "float-index": lambda: lambda p, Z: pd.Series(p, index=np.arange(len(p)) * 0.5),
    "str-index": lambda: lambda p, Z: pd.Series(p, index=["r%d" % (i * 7 % 5) for i in range(len(p))]),
    "column": lambda: lambda p, Z: p.reshape(-1, 1),
    "float32": lambda: lambda p, Z: p.astype("float32"),
    "int": lambda: lambda p, Z: p.astype("int64"),
    "int8": lambda: lambda p, Z: p.astype("int8"),
    "object": lambda: lambda p, Z: p.astype(object),
    "fortran": lambda: lambda p, Z: np.column_stack([p, p])[:, 0],
    "readonly": lambda: lambda p, Z: _ro(p),
}
TARGETS = ("array", "column", "int8", "series", "float-index", "object", "list", "tuple", "frame")
BATCH = {"range": 2000, "dup": 7, "float": 1, "reversed": 2000, "str": 50}


def _ro(p):
    p = p.copy()
    p.setflags(write=False)
    return p


def target(kind, y):
    y = np.array(y, dtype=float)
    return {"array": lambda: y, "column": lambda: y.reshape(-1, 1), "int8": lambda: y.astype("int8"), "series": lambda: pd.Series(y),
            "float-index": lambda: pd.Series(y, index=np.arange(len(y))[::-1] * 0.5), "object": lambda: y.astype(object),
            "list": lambda: y.tolist(), "tuple": lambda: tuple(y.tolist()), "frame": lambda: pd.DataFrame({"t": y})}[kind]()


class FormModel:
    def __init__(self, cols, table, form, proba):
        self.cols, self.table, self.form = cols, table, FORMS[form]() if form else lambda p, Z: p
        if proba:
            self.predict_proba = self._proba

    def _ask(self, Z):
        return np.array([self.table[r] for r in zip(*[Z[c].tolist() for c in self.cols])], dtype=float)

    def predict(self, Z):
        return self.form(self._ask(Z), Z)

    def _proba(self, Z):
        p = self._ask(Z)
        return np.column_stack([1 - p, p])


class C31:
    id = "C31"
    chunk = 40
    rule = ("a case is (form of the predictions, form of the targets, row labels, model, explanation); non-trivial: each, by distinct case")
    assumptions = ["one prediction per row; predictions and targets are finite numbers"]

    def bound(self, tier):
        return ("%d forms of predictions (list, series with five kinds of labels, column, integer and float types, read-only "
                "and strided arrays) through predict and through a given function, asked at once or in batches, x 5 kinds of row labels x %d models x 4 explanations; "
                "performance-based: x %d forms of targets x 3 metrics, with and without sampling; also with 60 rows" % (len(FORMS), 3 if tier == "quick" else 12, len(TARGETS)))

    def cases(self, tier):
        out = []
        for s in range(3 if tier == "quick" else 12):
            for form in FORMS:
                for lab in ("range", "dup", "float", "reversed", "str"):
                    for code in ("F", "G", "I", "A"):
                        out.append((code, form, lab, s, ("predict", "function")[(s + len(lab)) % 2]))
                    for t in TARGETS:
                        for metric in ("rmse", "mse", "acc"):
                            for code in ("P", "S"):
                                if tier == "quick" and (len(lab) + len(t) + s + len(form)) % 3 and not (s == 0 and lab == "float"):
                                    continue
                                out.append((code, form, lab, s, t, metric))
        for i, form in enumerate(FORMS):
            for j, lab in enumerate(("dup", "float")):
                for code in ("F", "G", "I", "A"):
                    out.append((code, form, lab, 100 + i, ("predict", "function")[j]))
                for k, t in enumerate(TARGETS):
                    out += [(code, form, lab, 100 + i, t, ("rmse", "mse", "acc")[(i + k) % 3]) for code in ("P", "S")]
        return out

    def run(self, case, ctx):
        code, form, lab, s = case[:4]
        cols = ["b", "a", "c"]
        g = grid([(0, 1, 2), (0, 1), (0, 1)])
        vals = [generic((i * 11 + 7 * s) % 70) % 101 - 50 for i in range(len(g))]
        rows = [g[(i * 5 + s) % len(g)] for i in (0, 3, 7, 1, 3)]
        if s >= 100:
            g = grid([range(10), (0, 1), (0, 1)])
            vals = [generic((i * 11 + 7 * s) % 70) % 101 - 50 for i in range(len(g))]
            rows = [g[(i * 7 + i * i % 5) % len(g)] for i in range(60)]
        table = dict(zip(g, vals))
        X = pd.DataFrame({c: [r[j] for r in rows] for j, c in enumerate(cols)}, index=make_index(lab, len(rows)))
        ref = Ref(cols, rows, table)
        tol = 1e-4 if form == "float32" else 1e-9
        with fitted.quiet():
            if code in "FGIA":
                model, kw = FormModel(cols, table, form, False), {"batchsize": BATCH[lab] if s < 100 else 450}
                if case[4] == "function":
                    ask = FormModel(cols, table, form, False)
                    model = FormModel(cols, {k: -3 * v for k, v in table.items()}, None, False)
                    kw["predict_function"] = lambda m, Z: ask.predict(Z)
                if code == "F":
                    m = env.FriedmanHStatisticMethod()
                    m.fit(model, X, **kw)
                    same_table(pair_table(m.ovo), {p: ref.h_pair(*sorted(p)) for p in all_pairs(cols)}, "H-statistic", tol)
                    same_table(feature_table(m.ova, m.method), {c: ref.h_ova(c) for c in cols}, "one-vs-all", tol)
                elif code == "G":
                    m = env.GreenwellMethod()
                    m.fit(model, X, **kw)
                    same_table(pair_table(m.ovo), {p: ref.greenwell(*sorted(p)) for p in all_pairs(cols)}, "Greenwell", tol)
                elif code == "I":
                    df = env.PartialDependenceBasedImportance().importance(model, X, **kw)
                    same_table(feature_table(df), {c: ref.importance(c) for c in cols}, "importance", tol)
                else:
                    a = env.AdditivityMeter()
                    got = a.fit(model, X, **kw)
                    expect(close(got, ref.additivity(), tol), "additivity is %r, by definition %r", got, ref.additivity())
                    expect(close(a.additivity_index, got), "the stored index differs")
                    for r, w in zip(a.full_result.values.tolist(), ref.additivity_rows()):
                        expect(all(close(x, z, tol) for x, z in zip(r, w)), "effects %r instead of %r", r, w)
            else:
                t, metric = case[4:]
                y = [v + (i % 3) - (100 if metric != "acc" and v > 0 and i == 1 else 0) for i, v in enumerate(table[r] for r in rows)]
                mk = {"rmse": env.RMSE, "mse": env.MSE, "acc": env.Accuracy}[metric]

                def go(model, yy):
                    if code == "P":
                        return feature_table(env.PermutationImportance(mk(), random_state=9).importance(model, X, yy, n_repeat=3))
                    m = env.SejongOhMethod(mk(), random_state=9)
                    m.fit(model, X, yy, n_repeat=2, **({"n": 4} if (len(form) + len(metric)) % 2 else {}))
                    return {**pair_table(m.ovo), **feature_table(m.feature_importance)}
                same_table(go(FormModel(cols, table, form, False), target(t, y)),
                           go(FormModel(cols, table, None, False), target("array", y)), "against plain arrays", tol)
        ctx.step()
        ctx.trace()
        ctx.state(case)
        ctx.nt(case)
        ctx.sample = {"case": list(case)}
