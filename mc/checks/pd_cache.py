"""C01: explicit-state exploration of the partial dependence calculator.  C02: batching, labels, progress."""
import contextlib
import io
import itertools

import numpy as np

from .. import env
from ..core import Violation, expect
from ..domain import (Ref, TableModel, all_pairs, close, feature_table, frame, generic, grid, make_table, pair_table,
                      same_table)

NAN = float("nan")

# ---------------------------------------------------------------- worlds
# (columns, rows); the model is generic: all table entries are different and follow no pattern
WORLDS = {
    "int2": (("a", "b"), ((1, 0), (0, 2), (1, 2))),
    "mixed2": (("b", "a"), (("y", 0.5), ("x", -1.0), ("y", -1.0), ("x", 0.5), ("y", 0.5))),
    "one": (("a", "b"), ((3, 4),)),
    "flat2": (("z", "a"), ((1, 5), (1, 7), (1, 5))),
    "bool3": (("c", "a", "b"), ((1, True, 0.25), (2, False, 0.25), (1, False, -3.5))),
    "int3": (("a", "b", "c"), ((0, 0, 1), (1, 0, 0), (1, 1, 1), (0, 0, 1))),
    "str3": (("p", "q", "r"), (("u", 1, "x"), ("v", 1, "x"), ("u", 2, "y"))),
    "near2": (("b", "a"), ((250000.0, 1e-12), (250001.0, 2e-12), (250000.5, 0.0), (-1e300, 2e-12), (250001.0, 0.0))),
    "close2": (("a", "b"), ((2 ** 53 + 1, "x"), (2 ** 53, "X"), (2 ** 53 + 2, "x "), (2 ** 53, "x"))),
    "int4": (("a", "b", "c", "d"), ((0, 0, 1, 5), (1, 0, 0, 6), (1, 1, 1, 5))),
}


# beyond the exhaustive part: many features, many values, many rows
WORLDS["wide7"] = (("g", "a", "f", "b", "e", "c", "d"),
                   tuple(tuple((i >> j ^ i * j >> 2) & 1 for j in range(7)) for i in (0, 3, 5, 10, 22, 63, 77, 100, 121)))
WORLDS["vals30"] = (("a", "b"), tuple(((i * 17) % 30 * 0.5, "v%d" % (i * i % 13)) for i in range(40)))
WORLDS["rows130"] = (("b", "c", "a"), tuple((i % 4, "xyz"[i * i % 3], (i * 5) % 7 > 2) for i in range(130)))
LARGE = ("wide7", "vals30", "rows130")


def domains_of(rows):
    return [sorted({r[j] for r in rows}) for j in range(len(rows[0]))]


def generic_table(rows, shift=0):
    doms = domains_of(rows)
    n = len(grid(doms))
    if n > 70:
        return make_table(doms, [generic((i * i * 31 + i * 7 + shift) % 70) + generic((i + shift) % 67) / 4 for i in range(n)])
    return make_table(doms, [generic((i + shift) % 70) for i in range(n)])


def world(name):
    cols, rows = WORLDS[name]
    table = generic_table(rows)
    return cols, rows, table, Ref(cols, rows, table)


# ---------------------------------------------------------------- C01
def ops_for(cols):
    """The operation alphabet, simplest first."""
    a, b = cols[0], cols[1]
    ops = [("s", (a,)), ("s", (b,)), ("s", None), ("m", (a,)), ("m", (b,)), ("m", None),
           ("p", ((a, b),), True), ("p", ((b, a),), True), ("p", ((a, b),), False), ("p", ((b, a),), False),
           ("p", None, True), ("p", None, False), ("s", (b, a, b)), ("p", ((b, a), (a, b)), True)]
    if len(cols) > 2:
        c = cols[2]
        ops += [("s", (c, a)), ("p", ((c, b),), True), ("p", ((a, c), (c, b)), False), ("p", ((c, a), (a, b)), True),
                ("m", (c, a))]
    return ops


def apply_op(calc, op):
    if op[0] == "s":
        calc.calculate_pd_single(None if op[1] is None else list(op[1]))
    elif op[0] == "m":
        calc.calculate_pd_minus_single(None if op[1] is None else list(op[1]))
    else:
        calc.calculate_pd_pairs(None if op[1] is None else [tuple(p) for p in op[1]], all_combinations=op[2])


def requested(ref, op):
    """Cells of the reference model that the operation asks for."""
    cols = ref.cols
    out = set()
    if op[0] == "s":
        for c in (op[1] or cols):
            out |= {("s", c, v) for v in ref.values(c)}
    elif op[0] == "m":
        for c in (op[1] or cols):
            out |= {("m", c, i) for i in range(ref.n)}
    else:
        for c1, c2 in (op[1] or itertools.combinations(cols, 2)):
            i, j = ref.pos[c1], ref.pos[c2]
            if i > j:
                c1, c2, i, j = c2, c1, j, i
            vals = {(r[i], r[j]) for r in ref.rows} if not op[2] else set(
                itertools.product(ref.values(c1), ref.values(c2)))
            out |= {("p", c1, c2, v1, v2) for v1, v2 in vals}
    return out


def observe(calc, ref):
    """Everything the calculator reports, through every getter and both orientations: {cell: value}."""
    got = {}
    for c in ref.cols:
        vals = ref.values(c)
        whole = calc.get_pd_single(c)
        expect(len(whole) == len(vals), "profile of %s has %d entries for %d values", c, len(whole), len(vals))
        back = list(reversed(vals)) + vals[:1]
        sel = calc.get_pd_single(c, back)
        for v, x in zip(back, sel):
            got[("s", c, v)] = float(x)
        for v, x in zip(vals, whole):
            expect(close(x, got[("s", c, v)]), "two readings of PD %s=%r: %r and %r", c, v, x, got[("s", c, v)])
        m = calc.get_pd_minus_single(c)
        expect(len(m) == ref.n, "all-but-%s has %d entries for %d rows", c, len(m), ref.n)
        for i, x in enumerate(m):
            got[("m", c, i)] = float(x)
    for c1, c2 in itertools.combinations(ref.cols, 2):
        cells = list(itertools.product(ref.values(c1), ref.values(c2)))
        x12 = calc.get_pd_pairs(c1, c2, cells)
        cells_back = list(reversed(cells))
        x21 = calc.get_pd_pairs(c2, c1, [(v2, v1) for v1, v2 in cells_back])
        mat = np.asarray(calc.get_pd_pairs(c1, c2))
        expect(mat.shape == (len(ref.values(c1)), len(ref.values(c2))), "matrix of (%s,%s) has shape %r", c1, c2,
               mat.shape)
        for k, (v1, v2) in enumerate(cells):
            got[("p", c1, c2, v1, v2)] = float(x12[k])
            expect(close(x12[k], x21[len(cells) - 1 - k]), "PD (%s=%r,%s=%r) is %r, reversed %r", c1, v1, c2, v2,
                   x12[k], x21[len(cells) - 1 - k])
            expect(close(x12[k], mat[ref.values(c1).index(v1), ref.values(c2).index(v2)]),
                   "PD matrix of (%s,%s) disagrees at (%r,%r)", c1, c2, v1, v2)
    return got


def truth(ref, cell):
    if cell[0] == "s":
        return float(ref.pd1(cell[1], cell[2]))
    if cell[0] == "m":
        return float(ref.pdm(cell[1], cell[2]))
    return float(ref.pd2(cell[1], cell[3], cell[2], cell[4]))


def check_cells(ref, got, req, where):
    for cell, x in got.items():
        if x != x:
            expect(cell not in req, "%s: requested value %r is missing", where, cell)
        else:
            t = truth(ref, cell)
            expect(close(x, t), "%s: %r is %r, by definition %r", where, cell, x, t)


class C01:
    id = "C01"
    rule = ("a case is a sequence of calculator operations on a fresh calculator; non-trivial: the sequence reaches a "
            "state (set of filled cells) after at least two operations of which a later one overlaps cells filled "
            "before, by distinct (world, batch size, sequence)")
    assumptions = ["data without missing values, values comparable within a column",
                   "state merging in the closure search: futures depend only on which cells are filled, because every "
                   "filled cell has been compared with the definition before merging"]
    chunk = 40

    def bound(self, tier):
        return ("all operation sequences up to depth %s without state merging (2 features: 14 operations, 3 features: 19 "
                "operations), batch sizes 1/4/2000, values that differ by one unit in the last places or in case only; breadth-first closure of the whole reachable state space with "
                "state merging for %s; 1-2 operations on worlds of 7 features, of 30 values, of 130 rows" % (("2 (3-feature worlds) / 3 (2-feature world)", "2-feature worlds")
                                          if tier == "quick" else ("3 / 4", "2- and 3-feature worlds")))

    def cases(self, tier):
        out = []
        two = ["int2", "mixed2", "one", "flat2", "near2", "close2"]
        three = ["bool3", "int3", "str3"]
        for w in two + three:
            ops = range(len(ops_for(WORLDS[w][0])))
            for bs in (2000, 1, 4):
                out += [("seq", w, bs, (i,)) for i in ops]
        for w in two + three:
            ops = range(len(ops_for(WORLDS[w][0])))
            for bs in ((4,) if tier == "quick" else (2000, 1, 4)):
                out += [("seq", w, bs, s) for s in itertools.product(ops, repeat=2)]
        for w in LARGE:
            ops = range(len(ops_for(WORLDS[w][0])))
            out += [("seq", w, bs, (i,)) for i in ops for bs in (2000, 50)]
            out += [("seq", w, 300, (i, j)) for i in ops for j in ops if tier == "thorough" or (i + 2 * j) % 4 == 0]
        for w in two:
            out.append(("bfs", w, 4))
        for w in (["int2", "mixed2"] if tier == "quick" else two):
            ops = range(len(ops_for(WORLDS[w][0])))
            out += [("seq", w, 5, s) for s in itertools.product(ops, repeat=3)]
        if tier == "thorough":
            for w in three:
                ops = range(len(ops_for(WORLDS[w][0])))
                out += [("seq", w, 7, s) for s in itertools.product(ops, repeat=3)]
            for w in ("int2",):
                ops = range(len(ops_for(WORLDS[w][0])))
                out += [("seq", w, 3, s) for s in itertools.product(ops, repeat=4)]
            for w in three:
                out.append(("bfs", w, 4))
        return out

    case_timeout = 3000

    def run(self, case, ctx):
        if case[0] == "bfs":
            return self.bfs(case, ctx)
        _, w, bs, seq = case
        cols, rows, table, ref = world(w)
        ops = ops_for(cols)
        model = TableModel(cols, table)
        calc = env.PartialDependenceCalculator(model, frame(cols, rows, "shuffled"), batchsize=bs)
        req = set()
        overlap = False
        for d, o in enumerate(seq):
            now = requested(ref, ops[o])
            overlap |= bool(now & req)
            apply_op(calc, ops[o])
            ctx.step()
            req |= now
            if d == len(seq) - 1 or d == 0:
                got = observe(calc, ref)
                check_cells(ref, got, req, "after %r" % ([ops[k] for k in seq[:d + 1]],))
                ctx.state((w, tuple(sorted((c for c, x in got.items() if x == x), key=repr))))
        before = (model.calls, model.rows)
        for o in seq:
            apply_op(calc, ops[o])
            ctx.step()
        expect((model.calls, model.rows) == before, "repeating %r asks the model again", [ops[k] for k in seq])
        again = observe(calc, ref)
        expect(all(close(again[c], got[c]) for c in got), "repeating the computation changed values")
        ctx.trace()
        ctx.peak("depth", len(seq))
        if overlap:
            ctx.nt(case)
        ctx.sample = {"operations": [ops[k] for k in seq], "cells_filled": sum(x == x for x in got.values()),
                      "cells_requested": len(req)}

    def bfs(self, case, ctx):
        _, w, bs = case
        cols, rows, table, ref = world(w)
        ops = ops_for(cols)

        def build(hist):
            model = TableModel(cols, table)
            calc = env.PartialDependenceCalculator(model, frame(cols, rows), batchsize=bs)
            req = set()
            for o in hist:
                apply_op(calc, ops[o])
                ctx.step()
                req |= requested(ref, ops[o])
            got = observe(calc, ref)
            check_cells(ref, got, req, "after %r" % ([ops[k] for k in hist],))
            return tuple(sorted((c for c, x in got.items() if x == x), key=repr))

        seen = {build(())}
        frontier = [()]
        depth = 0
        while frontier:
            new = []
            for hist in frontier:
                for o in range(len(ops)):
                    k = build(hist + (o,))
                    ctx.trace()
                    if k not in seen:
                        seen.add(k)
                        new.append(hist + (o,))
                        ctx.state((w, k))
            frontier = new
            depth += bool(new)
        ctx.count("bfs_states", len(seen))
        ctx.peak("bfs_depth", depth)
        ctx.nt(case)
        ctx.sample = {"closure_states": len(seen), "depth": depth}


# ---------------------------------------------------------------- C02
def explain_all(model, X, batchsize, show_progress, features=None, normalized=True):
    """All PD-based explanations of one model; returns plain tables."""
    with contextlib.redirect_stderr(io.StringIO()):
        kw = {} if batchsize is None else {"batchsize": batchsize}
        f = env.FriedmanHStatisticMethod(normalized=normalized)
        f.fit(model, X, features=features, show_progress=show_progress, **kw)
        g = env.GreenwellMethod()
        g.fit(model, X, features=features, show_progress=show_progress, **kw)
        i = env.PartialDependenceBasedImportance().importance(model, X, features=features, show_progress=show_progress,
                                                              **kw)
        a = env.AdditivityMeter().fit(model, X, show_progress=show_progress, **kw)
    return f, g, i, a


def verify_all(ref, res, features=None, normalized=True, where="", tol=1e-9):
    f, g, i, a = res
    feats = list(features or ref.cols)
    same_table(pair_table(f.ovo), {p: ref.h_pair(*sorted(p), normalized=normalized) for p in all_pairs(feats)},
               where + "H-statistic", tol)
    if f.ova is not None:
        same_table(feature_table(f.ova, f.method), {c: ref.h_ova(c, normalized) for c in feats},
                   where + "one-vs-all H-statistic", tol)
    same_table(pair_table(g.ovo), {p: ref.greenwell(*sorted(p)) for p in all_pairs(feats)}, where + "Greenwell", tol)
    imp = {c: ref.importance(c) for c in feats}
    same_table(feature_table(f.feature_importance), imp, where + "importance in H-statistic", tol)
    same_table(feature_table(g.feature_importance), imp, where + "importance in Greenwell", tol)
    same_table(feature_table(i), imp, where + "importance", tol)
    if ref.additivity() is not None:
        expect(close(a, ref.additivity(), tol), "%sadditivity index is %r, by definition %r", where, a, ref.additivity())


INDEX_KINDS = ["range", "shuffled", "dup", "str", "multi", "dup2", "reversed", "float"]


class C02:
    id = "C02"
    rule = ("a case is (data set, batch size, row labels, progress display); non-trivial: the batch size splits the "
            "requests (more than one prediction call per phase) or labels are not 0..n-1, by distinct case")
    assumptions = ["models answer row by row (the prediction of a row does not depend on the batch)"]
    chunk = 24

    def bound(self, tier):
        return ("batch sizes 1..%d and 2000 and the default, %d kinds of row labels, progress on/off, %d small worlds; "
                "plus worlds of up to 60 rows that cross the default batch size" %
                ((40, 5, 4) if tier == "quick" else (120, 8, 9)))

    def cases(self, tier):
        worlds = ["int2", "mixed2", "bool3", "int3"] if tier == "quick" else list(WORLDS)[:9]
        top = 40 if tier == "quick" else 120
        kinds = INDEX_KINDS[:5] if tier == "quick" else INDEX_KINDS
        out = []
        for w in worlds:
            for k in kinds:
                out += [("small", w, bs, k, p) for bs in (None, 2000, 1) for p in (False, True)]
        for w in worlds:
            for bs in range(2, top + 1):
                for k in kinds:
                    out.append(("small", w, bs, k, bs % 3 == 0))
        bigs = [(46, 46, 2), (60, 4, 34), (26, 9, 9)] if tier == "quick" else [
            (46, 46, 2), (60, 4, 34), (26, 9, 9), (45, 45, 45), (64, 32, 1), (41, 7, 7), (13, 13, 13)]
        out += [("big", b, bs) for b in bigs for bs in (None, 1000)]
        return out

    def run(self, case, ctx):
        if case[0] == "big":
            return self.big(case, ctx)
        _, w, bs, kind, progress = case
        cols, rows, table, ref = world(w)
        model = TableModel(cols, table)
        X = frame(cols, rows, kind)
        res = explain_all(model, X, bs, progress)
        verify_all(ref, res)
        ctx.step(4)
        # bare calculator: everything, with this batch size
        calc = env.PartialDependenceCalculator(model, X, **({} if bs is None else {"batchsize": bs}))
        before = model.calls
        with contextlib.redirect_stderr(io.StringIO()):
            calc.calculate_pd_single(show_progress=progress)
            calc.calculate_pd_pairs(show_progress=progress)
            calc.calculate_pd_minus_single(show_progress=progress)
        ctx.step(3)
        ctx.trace()
        got = observe(calc, ref)
        check_cells(ref, got, set(got), "batch size %r" % (bs,))
        ctx.state((w, model.calls - before, kind))
        ctx.seen("distinct_call_patterns", (w, model.calls - before))
        if model.calls - before > 3 or kind != "range":
            ctx.nt(case)
        ctx.sample = {"prediction_calls": model.calls - before}

    def big(self, case, ctx):
        _, (n, va, vb), bs = case
        rows = [((i * 5) % va, (i * 3) % vb, (i * i) % 3) for i in range(n)]
        cols = ("a", "b", "c")
        doms = domains_of(rows)
        table = {g: generic((g[0] * 31 + g[1] * 7 + g[2]) % 70) for g in grid(doms)}
        model = TableModel(cols, table)
        X = frame(cols, rows)
        feats = ["a", "b"]
        kw = {} if bs is None else {"batchsize": bs}
        arr = np.array(rows)
        lut = np.full([int(arr[:, j].max()) + 1 for j in range(3)], np.nan)
        for g, v in table.items():
            lut[g] = v
        calc = env.PartialDependenceCalculator(model, X, **kw)
        calc.calculate_pd_single()
        calc.calculate_pd_pairs([("b", "a")], all_combinations=va * vb <= 100)
        calc.calculate_pd_minus_single(feats)
        ctx.step(3)
        for c in range(3):
            vals = doms[c]
            q = [arr.copy() for _ in vals]
            for v, m in zip(vals, q):
                m[:, c] = v
            want = [np.mean(lut[m[:, 0], m[:, 1], m[:, 2]]) for m in q]
            expect(np.allclose(calc.get_pd_single(cols[c]), want, rtol=1e-9, atol=1e-9),
                   "PD profile of %s over %d rows is wrong", cols[c], n)
        pairs = sorted({(r[0], r[1]) for r in rows})
        got = calc.get_pd_pairs("a", "b", pairs)
        want = [np.mean(lut[v1, v2, arr[:, 2]]) for v1, v2 in pairs]
        expect(np.allclose(got, want, rtol=1e-9, atol=1e-9), "PD of pair (a,b) over %d rows is wrong", n)
        for c in (0, 1):
            want = []
            for r in rows:
                m = np.array([r] * n)
                m[:, c] = arr[:, c]
                want.append(np.mean(lut[m[:, 0], m[:, 1], m[:, 2]]))
            expect(np.allclose(calc.get_pd_minus_single(cols[c]), want, rtol=1e-9, atol=1e-9),
                   "all-but-%s PD over %d rows is wrong", cols[c], n)
        ctx.trace()
        ctx.state(case)
        ctx.nt(case)
        ctx.sample = {"prediction_calls": model.calls, "rows_predicted": model.rows}
