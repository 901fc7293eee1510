"""C15: completeness and order of every result table."""
import contextlib
import io
import itertools
import math

import numpy as np

from .. import env
from .. import treegen as tg
from ..core import expect
from ..domain import TableModel, all_pairs, frame, generic, grid, make_table, ordered
from . import boosted, forests
from .formulas import shape_values, spread

NAMES = ("d", "a", "c", "b")
WIDE = ("m", "c", "a", "x10", "x9", "B", "zz", "b", "k", "D", "e", "f", "g1", "g10", "g2", "y")


def number(v):
    return isinstance(v, (int, float, np.number)) and v == v and not math.isinf(v)


def check_pairs(df, method, feats, where):
    expect(list(df.columns) == ["Feature 1", "Feature 2", method], "%s: columns %r", where, list(df.columns))
    got = [frozenset(p) for p in zip(df["Feature 1"], df["Feature 2"])]
    want = all_pairs(feats)
    expect(len(got) == len(want) and set(got) == set(want), "%s for features %r: pairs %r", where, feats,
           [tuple(p) for p in zip(df["Feature 1"], df["Feature 2"])])
    expect(all(number(v) for v in df[method]), "%s: values %r", where, df[method].tolist())
    ordered([float(v) for v in df[method]], False, where)


def check_features(df, col, feats, where, ascending=False):
    expect(list(df.columns) == ["Feature", col], "%s: columns %r", where, list(df.columns))
    expect(sorted(df["Feature"]) == sorted(feats), "%s for features %r: lists %r", where, feats, df["Feature"].tolist())
    expect(all(number(v) for v in df[col]), "%s: values %r", where, df[col].tolist())
    ordered([float(v) for v in df[col]], ascending, where)


def rank_key(df, col):
    return tuple(df[col].rank(method="dense").tolist())


class C15:
    id = "C15"
    rule = ("a case is (method, model, data, ordered selection of features) or (forest) or (boosted ensemble, metrics); "
            "non-trivial: a table with at least two rows of different strength, by distinct case")
    assumptions = ["the model's predictions are finite"]
    chunk = 30

    def bound(self, tier):
        return ("all ordered selections of 2..4 (importance: 1..4) out of 4 features and None, %d models (generic, additive, "
                "one-feature, constant), 7 and 12 features with 4 models, all five model-agnostic explanations; all forests of C11 up to %d splits; boosted "
                "trees of up to 2 splits with all metrics" % ((4, 3) if tier == "quick" else (12, 4)))

    def models(self, tier):
        doms = [(0, 1)] * 4
        g = grid(doms)
        out = [[generic(i) for i in range(16)], [3 * r[0] - r[1] + 0.5 * r[2] for r in g], [r[2] * 7 for r in g],
               [5.0] * 16]
        if tier == "thorough":
            out += [[generic((i * 3 + s) % 70) for i in range(16)] for s in range(4)]
            out += [[r[0] * r[1] + r[2] * r[3] for r in g], [r[0] * r[1] for r in g], [sum(r) ** 2 for r in g],
                    [r[0] - r[1] * r[2] * r[3] for r in g]]
        return out

    def cases(self, tier):
        sel = [None] + [p for k in (2, 3, 4, 1) for p in itertools.permutations(range(4), k)]
        out = []
        for mi in range(len(self.models(tier))):
            for s in sel:
                for kind in ("F", "U", "G", "I", "P", "PA", "S", "SA"):
                    if s is not None and len(s) == 1 and kind not in ("I", "P", "PA"):
                        continue
                    out.append((kind, mi, s))
        for nf, n in ((7, 6), (12, 5)):
            for shape in ("gen", "add", "ties", "sparse"):
                for sel in (None, "reversed", "some"):
                    for kind in ("F", "U", "G", "I", "P", "PA", "S", "SA"):
                        if tier == "quick" and nf == 12 and sel == "some":
                            continue
                        out.append((kind, (nf, n, shape), sel))
        fs = [c for c in forests.enumerate_forests("quick") if sum(tg.size(t) for t, _ in c[1]) <= (3 if tier == "quick"
                                                                                              else 4)]
        out += [("forest",) + c for c in fs + forests.wide_forests(tier)]
        for c in boosted.enumerate_cases("quick", {"xgb": 10, "lgb": 6}):
            if len(c[1]) == 1 or c[1][0] in ("many", "real") or (tier == "thorough" and len(c[1]) == 2):
                if len(c[1]) == 1 and c[1][0] >= 37 and tier == "quick" and c[1][0] % 4:
                    continue
                out.append(("boosted",) + c)
        return out

    def run(self, case, ctx):
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            if case[0] == "forest":
                return self.forest(case, ctx)
            if case[0] == "boosted":
                return self.boosted(case, ctx)
            self.agnostic(case, ctx)
        ctx.step()
        ctx.trace()

    rows = ((0, 1, 1, 0), (1, 1, 0, 0), (1, 0, 1, 1), (0, 0, 0, 1), (1, 1, 1, 1))

    def agnostic(self, case, ctx):
        kind, mi, s = case
        names, rows = NAMES, self.rows
        if isinstance(mi, tuple):
            names = WIDE[:mi[0]]
            g = grid([(0, 1)] * mi[0])
            table = dict(zip(g, shape_values(mi[2], g)))
            rows = [g[i] for i in spread(mi[1], len(g))]
            s = {None: None, "reversed": tuple(range(mi[0]))[::-1], "some": tuple(range(1, mi[0]))}[s]
        else:
            table = make_table([(0, 1)] * 4, self.models(ctx.tier)[mi])
        if kind in ("PA", "SA"):
            table = {k: int(v) % 2 for k, v in table.items()}
        model = TableModel(names, table)
        X = frame(names, rows, "str")
        y = np.array([table[r] for r in rows])
        y[0] = 1 - y[0]
        feats = list(names) if s is None else [names[i] for i in s]
        arg = None if s is None else list(feats)
        keys = []
        if kind in ("F", "U"):
            m = env.FriedmanHStatisticMethod(normalized=kind == "F")
            m.fit(model, X, features=arg)
            check_pairs(m.ovo, m.method, feats, "H-statistic")
            check_features(m.ova, m.method, feats, "one-vs-all")
            check_features(m.feature_importance, "Importance", feats, "importance")
            keys = [m.ovo[m.method], m.ova[m.method]]
        elif kind == "G":
            m = env.GreenwellMethod()
            m.fit(model, X, features=arg)
            check_pairs(m.ovo, m.method, feats, "Greenwell")
            check_features(m.feature_importance, "Importance", feats, "importance")
            keys = [m.ovo[m.method]]
        elif kind == "I":
            df = env.PartialDependenceBasedImportance().importance(model, X, features=arg)
            check_features(df, "Importance", feats, "importance")
            keys = [df["Importance"]]
        elif kind[0] == "P":
            df = env.PermutationImportance(env.Accuracy() if kind == "PA" else env.RMSE(), random_state=3).importance(
                model, X, y, n_repeat=3, features=arg)
            check_features(df, "Importance", feats, "permutation importance")
            keys = [df["Importance"]]
        else:
            m = env.SejongOhMethod(env.Accuracy() if kind == "SA" else env.RMSE(), random_state=3)
            m.fit(model, X, y, n_repeat=3, features=arg)
            check_pairs(m.ovo, m.method, feats, "Sejong Oh")
            check_features(m.feature_importance, "Importance", feats, "permutation importance")
            keys = [m.ovo[m.method]]
        if arg is not None:
            expect(arg == feats, "the feature selection was changed")
        for k in keys:
            ctx.seen("tables", (kind, tuple(round(float(v), 9) for v in k)))
        ctx.state(case)
        if any(k.nunique() > 1 for k in keys):
            ctx.nt(case)
        ctx.sample = {"features": feats, "values": [k.tolist() for k in keys]}

    def forest(self, case, ctx):
        _, nf, ts, kind = case
        m = env.ConditionalMinimalDepthMethod()
        m.fit(tg.forest(forests.NAMES[:nf], ts, kind))
        ctx.step()
        pairs = list(zip(m.ovo["root_variable"], m.ovo["variable"]))
        expect(sorted(pairs) == sorted(itertools.permutations(forests.NAMES[:nf], 2)), "ordered pairs listed: %r", pairs)
        prev = None
        for occ, v in zip(m.ovo["n_occurences"], m.ovo[m.method]):
            if prev is not None:
                expect(occ <= prev[0], "occurrences not descending: %r", m.ovo["n_occurences"].tolist())
                if occ == prev[0]:
                    a, b = prev[1], v
                    if not (forests.isnull(a) or forests.isnull(b)):
                        expect(a <= b + 1e-9, "depths not ascending among equal occurrences: %r", m.ovo.values.tolist())
            prev = (occ, v)
        fi = m.feature_importance
        if len(fi):
            ordered([float(v) for v in fi["Importance"]], True, "minimal depth")
        expect(len(set(fi["Feature"])) == len(fi), "a feature is listed twice")
        ctx.trace()
        ctx.state(case)
        if len({(o, str(v)) for o, v in zip(m.ovo["n_occurences"], m.ovo[m.method])}) > 1:
            ctx.nt(case)
        ctx.sample = {"rows": m.ovo.values.tolist()}

    def boosted(self, case, ctx):
        case = case[1:]
        package = case[0]
        metric, only_def = boosted.C13.grid[package][case[4]]
        model, names, trees = boosted.resolve(case)
        imps = [x for x in boosted.IMP if package == "xgb" or x not in boosted.COVER]
        imp = imps[case[4] % len(imps)]
        m = env.SplitScoreMethod()
        m.fit(model, interaction_selected_metric=metric, importance_selected_metric=imp, only_def_interactions=only_def)
        ctx.step()
        pairs = list(zip(m.ovo["Feature 1"], m.ovo["Feature 2"]))
        expect(len(set(pairs)) == len(pairs), "a pair is listed twice: %r", pairs)
        ordered([float(v) for v in m.ovo[m.method]], metric == "mean_depth", "split score " + metric)
        fi = m.feature_importance
        ordered([float(v) for v in fi["Importance"]], imp in ("mean_depth", "mean_weighted_depth"), "importance " + imp)
        used = {names[r[1]] for r in boosted.split_list(trees)}
        expect(sorted(fi["Feature"]) == sorted(used), "features listed %r, used %r", fi["Feature"].tolist(), sorted(used))
        ctx.trace()
        ctx.state(case)
        if m.ovo[m.method].nunique() > 1 or fi["Importance"].nunique() > 1:
            ctx.nt(case)
        ctx.sample = {"pairs": m.ovo.values.tolist(), "importance": fi.values.tolist()}
