"""Deep, comparable snapshots of user objects."""
import numpy as np
import pandas as pd


def snap(x):
    if isinstance(x, pd.DataFrame):
        return ("frame", tuple(map(repr, x.columns)), tuple(map(str, x.dtypes)), snap(x.index),
                tuple(tuple(map(repr, x.iloc[:, j].tolist())) for j in range(x.shape[1])), repr(x.columns.names))
    if isinstance(x, pd.Series):
        return ("series", repr(x.name), str(x.dtype), snap(x.index), tuple(map(repr, x.tolist())))
    if isinstance(x, pd.Index):
        return ("index", type(x).__name__, repr(list(x.names)), tuple(map(repr, x.tolist())))
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), tuple(map(repr, x.ravel().tolist())))
    if isinstance(x, dict):
        return ("dict", tuple((repr(k), snap(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v) for v in x))
    return (type(x).__name__, repr(x))


def forest_snap(model):
    out = [tuple(model.feature_names_in_.tolist())]
    for e in model.estimators_:
        t = e.tree_
        out.append((t.node_count, tuple(t.feature.tolist()), tuple(t.children_left.tolist()),
                    tuple(t.children_right.tolist()), tuple(t.threshold.tolist())))
    return tuple(out)


def booster_snap(model):
    b = model
    if hasattr(b, "get_booster"):
        b = b.get_booster()
    if hasattr(b, "booster_"):
        b = b.booster_
    return snap(b.trees_to_dataframe())


def handler_snap(h):
    return (h.package, snap(h.trees_df), tuple(sorted(vars(h))))


def model_snap(m):
    if type(m).__name__ == "GBTreesHandler":
        return handler_snap(m)
    if hasattr(m, "estimators_"):
        return forest_snap(m)
    if hasattr(m, "table"):
        return (snap(m.cols), snap(m.table))
    return booster_snap(m)
