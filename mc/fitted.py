"""Fitted explanations: real tiny fits, whose result tables can then be replaced by enumerated ones."""
import contextlib
import io
import itertools

import numpy as np
import pandas as pd

from . import env
from . import treegen as tg
from .domain import TableModel, frame, generic, grid, make_table

NAMES = ("b", "a", "c", "d")
ROWS = ((0, 1, 1, 0), (1, 1, 0, 0), (1, 0, 1, 1), (0, 0, 0, 1), (1, 1, 1, 1))


def toy(nf=3, shift=0, kind="range", names=NAMES):
    cols = names[:nf]
    rows = [r[:nf] for r in ROWS]
    table = make_table([(0, 1)] * nf, [generic((i * 5 + shift) % 70) / 100.0 for i in range(2 ** nf)])
    return TableModel(cols, table), frame(cols, rows, kind), table


def quiet():
    st = contextlib.ExitStack()
    st.enter_context(contextlib.redirect_stdout(io.StringIO()))
    st.enter_context(contextlib.redirect_stderr(io.StringIO()))
    return st


L = lambda f, g, c: (f, float(g), float(c))
GB_TREES = [
    (L(0, 2, 9), (L(1, 3, 5), None, (L(2, 5, 2), None, None)), (L(2, 4, 4), (L(1, 1, 2), None, None), None)),
    (L(1, 6, 9), (L(0, 7, 4), None, None), (L(2, 2, 5), (L(0, 3, 3), None, None), (L(1, 4, 2), None, None))),
    (L(2, 1, 9), None, (L(0, 1.5, 7), (L(1, 2.5, 4), None, None), None)),
]
RF_TREES = [
    (0, (1, None, (2, None, None)), (2, (1, None, None), None)),
    (1, (0, None, None), (2, (0, None, None), None)),
    (2, (1, (0, None, None), None), (0, None, (1, None, None))),
]


def gb_model(package="xgb", nf=3, trees=None, names=NAMES):
    trees = GB_TREES if trees is None else trees
    return (tg.xgb_booster if package == "xgb" else tg.lgb_booster)(list(names[:nf]), trees)


def rf_model(nf=3, trees=None, names=NAMES, kind="rfr"):
    trees = RF_TREES if trees is None else trees
    return tg.forest(names[:nf], [(t, None) for t in trees], kind)


METHODS = ("F", "G", "S", "X", "L", "C")


def fit(code, nf=3, shift=0, names=NAMES, **kw):
    """A freshly fitted real explanation."""
    with quiet():
        if code in ("F", "U"):
            m = env.FriedmanHStatisticMethod(normalized=code == "F")
            model, X, _ = toy(nf, shift, names=names)
            m.fit(model, X, **kw)
        elif code == "G":
            m = env.GreenwellMethod()
            model, X, _ = toy(nf, shift, names=names)
            m.fit(model, X, **kw)
        elif code == "S":
            m = env.SejongOhMethod(random_state=7)
            model, X, table = toy(nf, shift, names=names)
            y = np.array([table[tuple(r)] for r in X.values.tolist()]) + np.array([0.3, -0.2, 0, 0.1, 0.4])
            m.fit(model, X, y, n_repeat=2, **kw)
        elif code in ("X", "L"):
            m = env.SplitScoreMethod()
            m.fit(gb_model("xgb" if code == "X" else "lgb", nf, names=names), **kw)
        elif code == "C":
            m = env.ConditionalMinimalDepthMethod()
            m.fit(rf_model(nf, names=names), **kw)
        else:
            raise KeyError(code)
    return m


def directed(code):
    return code == "C"


def columns(code):
    return ("root_variable", "variable") if code == "C" else ("Feature 1", "Feature 2")


def results(m):
    """Copies of all result tables of a fitted explanation."""
    out = {}
    for k in ("ovo", "ova", "feature_importance", "full_result", "full_ovo", "raw_result_df", "X_sampled", "y_sampled"):
        v = getattr(m, k, None)
        if isinstance(v, (pd.DataFrame, pd.Series, np.ndarray)):
            out[k] = v.copy()
    for k in ("features_included", "pairs", "metric", "method", "normalized"):
        v = getattr(m, k, None)
        if isinstance(v, (list, str, bool)):
            out[k] = list(v) if isinstance(v, list) else v
    return out


def same_results(a, b):
    """None or the name of the first table that differs."""
    if set(a) != set(b):
        return "set of tables %s against %s" % (sorted(a), sorted(b))
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, (pd.DataFrame, pd.Series)):
            if type(x) is not type(y) or not x.equals(y):
                return k
            if isinstance(x, pd.DataFrame) and (list(x.columns) != list(y.columns) or list(x.dtypes) != list(y.dtypes)):
                return k
        elif isinstance(x, np.ndarray):
            if not np.array_equal(x, y):
                return k
        elif x != y:
            return k
    return None
