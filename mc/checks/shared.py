"""C20: histories of explanations that share one partial dependence calculator."""
import contextlib
import io
import itertools

import numpy as np
import pandas as pd

from .. import env
from ..core import expect
from ..domain import (TableModel, all_pairs, close, feature_table, frame, pair_table, same_table)
from .pd_cache import LARGE, WORLDS, apply_op, check_cells, generic_table, observe, world


def alphabet(cols):
    """Explanations: (kind, features or None, flag)."""
    a, b = cols[0], cols[1]
    out = [("F", None, True), ("F", (b, a), False), ("G", None), ("G", (b, a)), ("I", None), ("I", (b,)), ("A",),
           ("c", ("s", (b,))), ("c", ("p", ((b, a),), True)), ("c", ("p", None, False)), ("c", ("m", (a,)))]
    if len(cols) > 2:
        c = cols[2]
        out += [("F", (c, a), True), ("G", (c, b))]
    return out


def do(step, model, X, calc, via="kw"):
    """Runs one explanation on a calculator (None: its own); returns plain tables."""
    kw = {} if calc is None else {"pd_calculator": calc}
    if step[0] == "F":
        f = env.FriedmanHStatisticMethod()
        f.fit(model, X, features=None if step[1] is None else list(step[1]), calculate_ova=step[2], **kw)
        return [pair_table(f.ovo), None if f.ova is None else feature_table(f.ova, f.method),
                feature_table(f.feature_importance)]
    if step[0] == "G":
        g = env.GreenwellMethod()
        g.fit(model, X, features=None if step[1] is None else list(step[1]), **kw)
        return [pair_table(g.ovo), feature_table(g.feature_importance)]
    if step[0] == "I":
        return [feature_table(env.PartialDependenceBasedImportance().importance(
            model, X, features=None if step[1] is None else list(step[1]), **kw))]
    if step[0] == "A":
        m = env.AdditivityMeter()
        return [{"index": m.fit(model, X, **kw)}]
    apply_op(calc if calc is not None else env.PartialDependenceCalculator(model, X), step[1])
    return []


def expected(step, ref):
    if step[0] in "FGI":
        feats = list(step[1] or ref.cols)
        imp = {c: ref.importance(c) for c in feats}
        if step[0] == "F":
            return [{p: ref.h_pair(*sorted(p)) for p in all_pairs(feats)},
                    {c: ref.h_ova(c) for c in feats} if step[2] else None, imp]
        if step[0] == "G":
            return [{p: ref.greenwell(*sorted(p)) for p in all_pairs(feats)}, imp]
        return [imp]
    if step[0] == "A":
        return [{"index": ref.additivity()}]
    return []


def plain_rows(step, n):
    """Rows an explanation must predict even if every partial dependence is there: the data themselves."""
    return n if step[0] == "A" or (step[0] == "F" and step[2]) else 0


class C20:
    id = "C20"
    rule = ("a case is a sequence of explanations on one shared calculator, or one mismatching (model, data) pair; "
            "non-trivial: at least two explanations of which a later one finds values computed by an earlier one, or a "
            "mismatch; by distinct case")
    assumptions = ["plain predictions of the data rows are not part of what the calculator holds"]
    chunk = 40

    def bound(self, tier):
        return ("all sequences of up to %d explanations (11 in 2-feature, 13 in 3-feature worlds), each followed by a "
                "repetition of the whole sequence; every single-cell change, row transposition, column transposition, "
                "added/removed row or column, renamed column, and every other model, for all four kinds of explanation, "
                "on fresh and on filled calculators; 1-2 explanations and the mismatches at the ends and in the middle in "
                "worlds of 7 features, of 30 values, of 130 rows" % (2 if tier == "quick" else 3))

    def cases(self, tier):
        out = []
        worlds = ["int2", "mixed2", "bool3", "int3"] if tier == "quick" else ["int2", "mixed2", "one", "flat2", "bool3",
                                                                             "int3", "str3", "int4"]
        for w in worlds:
            ops = range(len(alphabet(WORLDS[w][0])))
            out += [("seq", w, (i,)) for i in ops]
        for w in worlds:
            out += [("bad", w, kind, filled) for kind in "FGIA" for filled in (False, True)]
        for w in worlds:
            ops = range(len(alphabet(WORLDS[w][0])))
            out += [("seq", w, s) for s in itertools.product(ops, repeat=2)]
        for w in LARGE:
            ops = range(len(alphabet(WORLDS[w][0])))
            out += [("seq", w, (i,)) for i in ops]
            out += [("bad", w, kind, False) for kind in "FGIA"]
            out += [("seq", w, (i, j)) for i in ops for j in ops if tier == "thorough" or (i + 2 * j) % 4 == 0]
        for w in (["int2"] if tier == "quick" else worlds):
            ops = range(len(alphabet(WORLDS[w][0])))
            out += [("seq", w, s) for s in itertools.product(ops, repeat=3)]
        return out

    def run(self, case, ctx):
        getattr(self, case[0])(case, ctx)

    def seq(self, case, ctx):
        _, w, seq = case
        cols, rows, table, ref = world(w)
        ab = alphabet(cols)
        model = TableModel(cols, table)
        X = frame(cols, rows, "dup2")
        calc = env.PartialDependenceCalculator(model, X.copy(), batchsize=5)
        held = set()
        reuse = False
        for rnd in range(2):
            for k in seq:
                step = ab[k]
                before = model.rows
                res = do(step, model, X, calc)
                ctx.step()
                for got, want in zip(res, expected(step, ref)):
                    if want is None:
                        expect(got is None, "unrequested one-vs-all")
                    elif "index" in want and want["index"] is None:
                        pass
                    else:
                        same_table(got, want, "%r after %r" % (step, [ab[j] for j in seq]))
                cells = observe(calc, ref)
                check_cells(ref, cells, set(), "after %r" % (step,))
                now = {c for c, x in cells.items() if x == x}
                expect(held <= now, "%r dropped values of the shared calculator", step)
                asked = model.rows - before
                if rnd == 1:
                    expect(asked <= plain_rows(step, ref.n),
                           "%r on a calculator that holds everything it needs asks for %d rows", step, asked)
                else:
                    # every new cell costs one pass over the data, what is held costs nothing
                    budget = (len(now - held)) * ref.n + plain_rows(step, ref.n)
                    expect(asked <= budget, "%r asks for %d rows, the %d missing values need %d", step, asked,
                           len(now - held), budget)
                    reuse |= bool(held) and asked < (len(now)) * ref.n
                held = now
        ctx.trace()
        ctx.state((w, tuple(sorted(held, key=repr))))
        if reuse and len(seq) > 1:
            ctx.nt(case)
        ctx.sample = {"explanations": [ab[k] for k in seq], "values_held": len(held), "rows_predicted": model.rows}

    def bad(self, case, ctx):
        _, w, kind, filled = case
        cols, rows, table, ref = world(w)
        step = {"F": ("F", None, True), "G": ("G", None), "I": ("I", None), "A": ("A",)}[kind]
        model = TableModel(cols, table)
        for name, X2, model2 in mismatches(cols, rows, table, model):
            model.calls = model2.calls = 0
            calc = env.PartialDependenceCalculator(model, frame(cols, rows))
            if filled:
                calc.calculate_pd_single()
                calc.calculate_pd_pairs()
                calc.calculate_pd_minus_single()
            cells = observe(calc, ref)
            model.calls = 0
            try:
                do(step, model2, X2, calc)
            except ValueError as e:
                pass
            else:
                expect(False, "a calculator for %s is accepted by %r", name, step)
            expect(model.calls == 0 and model2.calls == 0, "a calculator for %s is rejected only after computations", name)
            after = observe(calc, ref)
            expect(all(close(after[c], cells[c]) for c in cells), "a rejected calculator (%s) was changed", name)
            ctx.step()
            ctx.trace()
            ctx.state((w, kind, filled, name))
            ctx.nt((w, kind, filled, name))
            ctx.count("mismatches")
        ctx.sample = {"last_mismatch": name}


def mismatches(cols, rows, table, model):
    base = frame(cols, rows)
    doms = [sorted({r[j] for r in rows}) for j in range(len(cols))]
    some = range(len(rows)) if len(rows) < 8 else (0, 1, len(rows) // 2, len(rows) - 1)
    yield "another model", base.copy(), TableModel(cols, table)
    yield "another model", base.copy(), TableModel(cols, {k: -v for k, v in table.items()})
    for i in some:
        for j in range(len(cols)):
            v = rows[i][j]
            alts = [d for d in doms[j] if d != v]
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                alts += [v + 0.0009765625 if isinstance(v, float) else v + 1]
            for alt in alts if len(alts) < 8 else alts[:1] + alts[-2:]:
                r = [list(x) for x in rows]
                r[i][j] = alt
                yield "cell (%d,%s) %r instead of %r" % (i, cols[j], alt, v), frame(cols, [tuple(x) for x in r]), model
    for i, k in itertools.combinations(some, 2):
        if rows[i] != rows[k]:
            r = list(rows)
            r[i], r[k] = r[k], r[i]
            yield "rows %d and %d swapped" % (i, k), frame(cols, r), model
    if len(rows) > 1:
        for i in some:
            yield "row %d removed" % i, frame(cols, rows[:i] + rows[i + 1:]), model
    for i in some:
        yield "row %d doubled" % i, frame(cols, rows[:i + 1] + rows[i:]), model
    for p in itertools.permutations(range(len(cols))) if len(cols) < 5 else [
            tuple(k if x == i else i if x == k else x for x in range(len(cols))) for i, k in ((0, 1), (0, len(cols) - 1), (2, 4))]:
        if list(p) != sorted(p):
            yield "columns permuted", frame([cols[j] for j in p], [tuple(r[j] for j in p) for r in rows]), model
    for j in range(len(cols)):
        yield "column renamed", frame([c if k != j else c + "_" for k, c in enumerate(cols)], rows), model
        if len(cols) > 2:
            yield "column removed", frame([c for k, c in enumerate(cols) if k != j],
                                          [tuple(v for k, v in enumerate(r) if k != j) for r in rows]), model
    for j, k in itertools.combinations(range(len(cols)), 2):
        yield "names exchanged", frame([cols[k] if c == cols[j] else cols[j] if c == cols[k] else c for c in cols],
                                       rows), model
