"""C03: every prediction call of every explanation is made to fail, once and twice."""
import contextlib
import io
import itertools

import numpy as np
import pandas as pd

from .. import env
from ..core import expect
from ..domain import (Boom, TableModel, all_pairs, close, feature_table, frame, pair_table, same_table)
from .pd_cache import LARGE, apply_op, check_cells, observe, ops_for, world

METHODS = ("friedman", "friedman_noova", "friedman_sub", "greenwell", "importance", "additivity", "calc_s", "calc_p",
           "calc_po", "calc_m")
RANDOM = ("sejong", "permutation")
KINDS = {"Boom": Boom, "KeyboardInterrupt": KeyboardInterrupt, "ValueError": ValueError, "MemoryError": MemoryError}


def call(name, model, X, bs, calc, obj=None):
    """Runs one explanation; returns (object, tables)."""
    kw = {} if calc is None else {"pd_calculator": calc}
    if name.startswith("friedman"):
        f = obj or env.FriedmanHStatisticMethod()
        f.fit(model, X, batchsize=bs, calculate_ova=name != "friedman_noova",
              features=[X.columns[1], X.columns[0]] if name == "friedman_sub" else None, **kw)
        return f, ("F", f.ovo, f.ova, f.feature_importance)
    if name == "greenwell":
        g = obj or env.GreenwellMethod()
        g.fit(model, X, batchsize=bs, **kw)
        return g, ("G", g.ovo, g.feature_importance)
    if name == "importance":
        i = obj or env.PartialDependenceBasedImportance()
        return i, ("I", i.importance(model, X, batchsize=bs, **kw))
    if name == "additivity":
        a = obj or env.AdditivityMeter()
        return a, ("A", a.fit(model, X, batchsize=bs, **kw), a)
    c = calc if calc is not None else (obj or env.PartialDependenceCalculator(model, X, batchsize=bs))
    apply_op(c, {"calc_s": ("s", None), "calc_p": ("p", None, True), "calc_po": ("p", None, False),
                 "calc_m": ("m", None)}[name])
    return c, ("C", c)


def feats_of(name, cols):
    return [cols[1], cols[0]] if name == "friedman_sub" else list(cols)


def verify(name, ref, res, where):
    kind = res[0]
    feats = feats_of(name, ref.cols)
    imp = {c: ref.importance(c) for c in feats}
    if kind == "F":
        same_table(pair_table(res[1]), {p: ref.h_pair(*sorted(p)) for p in all_pairs(feats)}, where + "H-statistic")
        if name != "friedman_noova":
            same_table(feature_table(res[2], [c for c in res[2].columns if c != "Feature"][0]),
                       {c: ref.h_ova(c) for c in feats}, where + "one-vs-all")
        same_table(feature_table(res[3]), imp, where + "importance")
    elif kind == "G":
        same_table(pair_table(res[1]), {p: ref.greenwell(*sorted(p)) for p in all_pairs(feats)}, where + "Greenwell")
        same_table(feature_table(res[2]), imp, where + "importance")
    elif kind == "I":
        same_table(feature_table(res[1]), imp, where + "importance")
    elif kind == "A":
        if ref.additivity() is not None:
            expect(close(res[1], ref.additivity()), "%sadditivity index %r, by definition %r", where, res[1],
                   ref.additivity())
    else:
        op = {"calc_s": ("s", None), "calc_p": ("p", None, True), "calc_po": ("p", None, False),
              "calc_m": ("m", None)}[name]
        from .pd_cache import requested
        check_cells(ref, observe(res[1], ref), requested(ref, op), where)


def snapshot(X):
    return (X.copy(deep=True), list(X.index), list(X.columns), list(X.dtypes))


def unchanged(X, snap, where):
    expect(list(X.columns) == snap[2] and list(X.index) == snap[1] and list(X.dtypes) == snap[3] and X.equals(snap[0]),
           "%s: the data given by the user changed", where)


def attempt(fn, exc, where, model):
    """Runs fn, expecting the injected failure exactly when the model raised it."""
    try:
        out = fn()
    except exc as e:
        expect("injected failure" in str(e), "%s: %s reached the caller instead of the injected one", where, e)
        return None
    expect(not model.failed, "%s: the model raised %s but the call returned", where, exc.__name__)
    return out


class FailingModel(TableModel):
    failed = False

    def arm(self, k):
        self.calls = 0
        self.fail = {k}
        self.failed = False

    def _answer(self, X, table):
        k = self.calls
        try:
            return super()._answer(X, table)
        except self.exc:
            if k in self.fail:
                self.failed = True
            raise


class C03:
    id = "C03"
    rule = ("an evaluation unit is (explanation, calculator ownership, batch size, error type, failing call or pair of "
            "failing calls); non-trivial: the failing call is not the first one (something was already cached), by "
            "distinct unit")
    assumptions = ["a prediction call either raises or answers correctly"]
    chunk = 4
    case_timeout = 900

    def bound(self, tier):
        return ("every prediction call of every explanation fails once (batch sizes 1, 4, 2000; %s), also in worlds of 7 features, of 30 values, of 130 rows with batch size 2000, every pair of failing "
                "calls over first run and retry for batch sizes 4 and 2000%s" %
                (("3 worlds", "") if tier == "quick" else ("7 worlds", " and 1")))

    def cases(self, tier):
        worlds = ["int2", "bool3", "mixed2"] if tier == "quick" else ["int2", "mixed2", "bool3", "int3", "str3", "flat2",
                                                                     "int4"]
        out = []
        for w in worlds:
            for m in METHODS:
                for own in ("own", "shared"):
                    if m.startswith("calc") and own == "shared":
                        continue
                    for bs in (2000, 4, 1):
                        for exc in (("Boom", "KeyboardInterrupt") if tier == "quick" else tuple(KINDS)):
                            if tier == "quick" and exc == "KeyboardInterrupt" and (bs == 1 or w != "int2"):
                                continue
                            out.append(("one", w, m, own, bs, exc))
        for w in worlds:
            for m in RANDOM:
                for metric in ("RMSE", "Accuracy"):
                    out.append(("rnd", w, m, metric))
        for w in worlds:
            for m in METHODS:
                for own in ("own", "shared"):
                    if m.startswith("calc") and own == "shared":
                        continue
                    for bs in ((2000, 4) if tier == "quick" else (2000, 4, 1)):
                        if tier == "quick" and bs == 4 and w != "int2":
                            continue
                        out.append(("two", w, m, own, bs, "Boom"))
        for w in LARGE:
            for m in METHODS:
                for own in ("own", "shared"):
                    if not m.startswith("calc") or own == "own":
                        out.append(("one", w, m, own, 2000, "Boom"))
        # a failure of one explanation, then another one on the same calculator
        for w in worlds[:2]:
            for m1 in METHODS[:6]:
                for m2 in METHODS[:6]:
                    out.append(("cross", w, m1, m2, 4))
        return out

    def run(self, case, ctx):
        with contextlib.redirect_stderr(io.StringIO()):
            getattr(self, case[0])(case, ctx)

    def setup(self, w, exc):
        cols, rows, table, ref = world(w)
        model = FailingModel(cols, table, exc=KINDS[exc])
        X = frame(cols, rows, "str")
        return model, X, ref

    def calls(self, w, m, bs):
        model, X, ref = self.setup(w, "Boom")
        calc = None
        _, res = call(m, model, X, bs, calc)
        verify(m, ref, res, "undisturbed: ")
        return model.calls

    def one(self, case, ctx):
        _, w, m, own, bs, exc = case
        n = self.calls(w, m, bs)
        for k in range(n):
            model, X, ref = self.setup(w, exc)
            snap = snapshot(X)
            calc = env.PartialDependenceCalculator(model, X, batchsize=bs) if own == "shared" else None
            where = "%s, failure of call %d of %d" % (m, k, n)
            obj = self.fresh(m, model, X, bs, calc)
            model.arm(k)
            res = attempt(lambda: call(m, model, X, bs, calc, obj), KINDS[exc], where, model)
            unchanged(X, snap, where)
            ctx.step()
            got = None
            for c in self.calcs(obj, calc):
                got = observe(c, ref)
                check_cells(ref, got, set(), where)
            model.fail = set()
            for o in (obj, None):
                _, res2 = call(m, model, X, bs, calc, o)
                verify(m, ref, res2, where + ", retried: ")
                unchanged(X, snap, where)
                ctx.step()
            ctx.trace()
            ctx.state((w, m, own, bs, k, tuple(sorted((c for c, x in (got or {}).items() if x == x), key=repr))))
            if k > 0:
                ctx.nt((case, k))
        ctx.peak("prediction_calls", n)
        ctx.count("failures_injected", n)
        ctx.sample = {"explanation": m, "prediction_calls": n}

    def fresh(self, m, model, X, bs, calc):
        if m.startswith("friedman"):
            return env.FriedmanHStatisticMethod()
        if m == "greenwell":
            return env.GreenwellMethod()
        if m == "importance":
            return env.PartialDependenceBasedImportance()
        if m == "additivity":
            return env.AdditivityMeter()
        return calc if calc is not None else env.PartialDependenceCalculator(model, X, batchsize=bs)

    def calcs(self, obj, calc):
        out = [] if calc is None else [calc]
        if isinstance(obj, env.PartialDependenceCalculator):
            out.append(obj)
        elif getattr(obj, "pd_calculator", None) is not None and obj.pd_calculator is not calc:
            out.append(obj.pd_calculator)
        return out

    def two(self, case, ctx):
        _, w, m, own, bs, exc = case
        n = self.calls(w, m, bs)
        for k1 in range(n):
            k2 = 0
            while True:
                model, X, ref = self.setup(w, exc)
                snap = snapshot(X)
                calc = env.PartialDependenceCalculator(model, X, batchsize=bs) if own == "shared" else None
                obj = self.fresh(m, model, X, bs, calc)
                where = "%s, failures of call %d, then of call %d of the retry" % (m, k1, k2)
                model.arm(k1)
                attempt(lambda: call(m, model, X, bs, calc, obj), KINDS[exc], where, model)
                model.arm(k2)
                res = attempt(lambda: call(m, model, X, bs, calc, obj), KINDS[exc], where, model)
                for c in self.calcs(obj, calc):
                    check_cells(ref, observe(c, ref), set(), where)
                hit = model.failed
                model.fail = set()
                _, res = call(m, model, X, bs, calc, obj)
                verify(m, ref, res, where + ": ")
                unchanged(X, snap, where)
                ctx.step(3)
                ctx.trace()
                ctx.state((case, k1, k2))
                if not hit:
                    break
                ctx.nt((case, k1, k2))
                ctx.count("failures_injected", 2)
                k2 += 1
        ctx.sample = {"explanation": m, "prediction_calls": n}

    def cross(self, case, ctx):
        _, w, m1, m2, bs = case
        n = self.calls(w, m1, bs)
        for k in range(n):
            model, X, ref = self.setup(w, "Boom")
            calc = env.PartialDependenceCalculator(model, X, batchsize=bs)
            where = "%s fails at call %d, then %s on the same calculator" % (m1, k, m2)
            model.arm(k)
            attempt(lambda: call(m1, model, X, bs, calc), Boom, where, model)
            model.fail = set()
            _, res = call(m2, model, X, bs, calc)
            verify(m2, ref, res, where + ": ")
            _, res = call(m1, model, X, bs, calc)
            verify(m1, ref, res, where + ", retried: ")
            ctx.step(3)
            ctx.trace()
            ctx.state((case, k))
            if k:
                ctx.nt((case, k))
        ctx.count("failures_injected", n)

    def rnd(self, case, ctx):
        _, w, m, metric = case
        cols, rows, table, ref = world(w)
        if metric == "Accuracy":
            table = {k: v % 2 for k, v in table.items()}
        y0 = [table[r] + (i % 2 if metric == "RMSE" else 0) for i, r in enumerate(rows)]
        mt = {"RMSE": env.RMSE, "Accuracy": env.Accuracy}[metric]

        def go(model, X, y, obj):
            if m == "sejong":
                obj.fit(model, X, y, n_repeat=2)
                return [obj.ovo, obj.feature_importance]
            return [obj.importance(model, X, y, n_repeat=2)]

        def new():
            return (env.SejongOhMethod if m == "sejong" else env.PermutationImportance)(mt(), random_state=5)

        for yk in ("array", "series"):
            def mk():
                model = FailingModel(cols, table)
                X = frame(cols, rows, "dup")
                y = np.array(y0, float) if yk == "array" else pd.Series(y0, index=list(range(len(y0)))[::-1])
                return model, X, y
            model, X, y = mk()
            want = go(model, X, y, new())
            n = model.calls
            for k in range(n):
                model, X, y = mk()
                snap, ysnap = snapshot(X), (y.copy() if yk == "array" else y.copy(deep=True))
                where = "%s, failure of call %d of %d" % (m, k, n)
                model.arm(k)
                obj = new()
                res = attempt(lambda: go(model, X, y, obj), Boom, where, model)
                expect(res is None, "%s: no failure", where)
                unchanged(X, snap, where)
                expect((y == ysnap).all() and (yk == "array" or list(y.index) == list(ysnap.index)),
                       "%s: the target given by the user changed", where)
                model.fail = set()
                got = go(model, X, y, new())
                for a, b in zip(got, want):
                    expect(a.equals(b), "%s, retried with a fresh object of the same random state: %s instead of %s",
                           where, a.values.tolist(), b.values.tolist())
                got = go(model, X, y, obj)
                for a, b in zip(got, want):
                    expect(list(a.columns) == list(b.columns) and len(a) == len(b) and not a.isnull().values.any(),
                           "%s, retried: table %s", where, a.values.tolist())
                unchanged(X, snap, where)
                ctx.step(3)
                ctx.trace()
                ctx.state((case, yk, k))
                if k:
                    ctx.nt((case, yk, k))
            ctx.count("failures_injected", n)
