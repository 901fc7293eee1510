"""Enumeration of small decision trees and real model objects that contain them.

A tree is None (leaf) or (label, left, right); a label is a feature index or a tuple (feature, gain, cover).
"""
import copy
import itertools
import json

import numpy as np


def shapes(k):
    """All binary tree shapes with k internal nodes (label placeholder 0)."""
    if k == 0:
        yield None
        return
    for i in range(k):
        for l in shapes(i):
            for r in shapes(k - 1 - i):
                yield (0, l, r)


def relabel(shape, labels):
    it = iter(labels)

    def go(s):
        if s is None:
            return None
        lab = next(it)
        return (lab, go(s[1]), go(s[2]))
    return go(shape)


def trees(k, alphabet):
    for s in shapes(k):
        for labels in itertools.product(alphabet, repeat=k):
            yield relabel(s, labels)


def size(t):
    return 0 if t is None else 1 + size(t[1]) + size(t[2])


def splits(t, depth=0, path=()):
    """(label, depth, parent label or None, subtree) of every split, depth first."""
    def go(t, depth, parent):
        if t is None:
            return
        yield t[0], depth, parent, t
        yield from go(t[1], depth + 1, t[0])
        yield from go(t[2], depth + 1, t[0])
    return go(t, 0, None)


def expansion_orders(t):
    """Every order in which a best-first grower can split the nodes (paths), root first."""
    if t is None:
        yield ()
        return

    def node(path):
        x = t
        for p in path:
            x = x[1 + p]
        return x

    def go(done, frontier):
        if not frontier:
            yield tuple(done)
            return
        for i, path in enumerate(frontier):
            rest = frontier[:i] + frontier[i + 1:]
            kids = [path + (s,) for s in (0, 1) if node(path)[1 + s] is not None]
            yield from go(done + [path], rest + kids)
    yield from go([], [()])


def numbering(t, order=None):
    """[(label or None, left id, right id)] in node id order. order=None: depth-first ids (scikit-learn default),
    else best-first ids for that expansion order."""
    if order is None:
        nodes = []

        def go(x):
            me = len(nodes)
            nodes.append(None)
            if x is None:
                nodes[me] = (None, -1, -1)
            else:
                l = go(x[1])
                r = go(x[2])
                nodes[me] = (x[0], l, r)
            return me
        go(t)
        return nodes
    ids = {(): 0}
    nodes = {0: (None, -1, -1)}
    nxt = 1
    for path in order:
        x = t
        for p in path:
            x = x[1 + p]
        ids[path + (0,)], ids[path + (1,)] = nxt, nxt + 1
        nodes[nxt] = nodes[nxt + 1] = (None, -1, -1)
        nodes[ids[path]] = (x[0], nxt, nxt + 1)
        nxt += 2
    return [nodes[i] for i in range(nxt)]


# ---------------------------------------------------------------- scikit-learn forests
_templates = {}


def _template(kind, names, n_trees):
    key = (kind, names, n_trees)
    if key not in _templates:
        import pandas as pd
        from sklearn import ensemble
        cls = {"rfr": ensemble.RandomForestRegressor, "rfc": ensemble.RandomForestClassifier,
               "etr": ensemble.ExtraTreesRegressor, "etc": ensemble.ExtraTreesClassifier}[kind]
        X = pd.DataFrame({n: [0, 1, 2, 3] for n in names})
        _templates[key] = cls(n_estimators=n_trees, random_state=0, max_depth=1).fit(X, [0, 1, 1, 0])
    return _templates[key]


def forest(names, trees_with_order, kind="rfr"):
    """A real fitted forest object whose trees are exactly the given ones."""
    from sklearn.tree._tree import Tree
    tpl = copy.deepcopy(_template(kind, tuple(names), len(trees_with_order)))
    for est, (t, order) in zip(tpl.estimators_, trees_with_order):
        nodes = numbering(t, order)
        old = est.tree_.__getstate__()
        n = len(nodes)
        arr = np.zeros(n, dtype=old["nodes"].dtype)
        for i, (lab, l, r) in enumerate(nodes):
            arr[i]["left_child"], arr[i]["right_child"] = l, r
            arr[i]["feature"] = -2 if lab is None else lab
            arr[i]["threshold"] = -2.0 if lab is None else 0.5 + i
            arr[i]["n_node_samples"] = 1
            arr[i]["weighted_n_node_samples"] = 1.0
        vals = np.zeros((n,) + old["values"].shape[1:])
        vals[...] = 0.5
        new = Tree(len(names), np.asarray(est.tree_.n_classes, dtype=np.intp), est.tree_.n_outputs)
        new.__setstate__({"max_depth": depth(t), "node_count": n, "nodes": arr, "values": vals})
        est.tree_ = new
    return tpl


def depth(t):
    return 0 if t is None else 1 + max(depth(t[1]), depth(t[2]))


# ---------------------------------------------------------------- XGBoost
_xgb = {}


def _xgb_json(names, n_trees):
    key = (tuple(names), n_trees)
    if key not in _xgb:
        import pandas as pd
        import xgboost as xgb
        X = pd.DataFrame({n: [0.0, 1.0, 2.0, 3.0] for n in names})
        d = xgb.DMatrix(X, label=[0, 1, 2, 3])
        b = xgb.train({"max_depth": 1, "eta": 1.0, "nthread": 1}, d, num_boost_round=n_trees)
        _xgb[key] = bytes(b.save_raw("json"))
    return json.loads(_xgb[key])


def xgb_booster(names, forest_trees, orders=None):
    """A real Booster with exactly the given trees; labels are (feature, gain, cover)."""
    import xgboost as xgb
    d = _xgb_json(names, len(forest_trees))
    model = d["learner"]["gradient_booster"]["model"]
    tpl = model["trees"][0]
    out = []
    for ti, t in enumerate(forest_trees):
        nodes = numbering_bfs(t) if orders is None or orders[ti] is None else numbering(t, orders[ti])
        n = len(nodes)
        x = copy.deepcopy(tpl)
        x["id"] = ti
        x["tree_param"]["num_nodes"] = str(n)
        x["left_children"] = [a[1] for a in nodes]
        x["right_children"] = [a[2] for a in nodes]
        par = [2147483647] * n
        for i, a in enumerate(nodes):
            if a[0] is not None:
                par[a[1]] = par[a[2]] = i
        x["parents"] = par
        x["split_indices"] = [0 if a[0] is None else a[0][0] for a in nodes]
        x["split_conditions"] = [0.25 if a[0] is None else 0.5 for a in nodes]
        x["split_type"] = [0] * n
        x["default_left"] = [0] * n
        x["base_weights"] = [0.0] * n
        x["loss_changes"] = [0.0 if a[0] is None else float(a[0][1]) for a in nodes]
        x["sum_hessian"] = [1.0 if a[0] is None else float(a[0][2]) for a in nodes]
        for k in ("categories", "categories_nodes", "categories_segments", "categories_sizes"):
            x[k] = []
        out.append(x)
    model["trees"] = out
    model["tree_info"] = [0] * len(out)
    model["gbtree_model_param"]["num_trees"] = str(len(out))
    if "iteration_indptr" in model:
        model["iteration_indptr"] = list(range(len(out) + 1))
    b = xgb.Booster({"nthread": 1})
    b.load_model(bytearray(json.dumps(d).encode()))
    return b


def numbering_bfs(t):
    """Level order ids, as XGBoost's depthwise grower numbers its nodes."""
    nodes, queue = [], [t]
    nodes.append(None)
    q = [(t, 0)]
    while q:
        x, i = q.pop(0)
        if x is None:
            nodes[i] = (None, -1, -1)
            continue
        l = len(nodes)
        nodes += [None, None]
        nodes[i] = (x[0], l, l + 1)
        q += [(x[1], l), (x[2], l + 1)]
    return nodes


# ---------------------------------------------------------------- LightGBM
def lgb_booster(names, forest_trees, orders=None):
    """A real LightGBM Booster with exactly the given trees; split ids in expansion order (default: pre-order)."""
    import lightgbm as lgb
    head = ["tree", "version=v3", "num_class=1", "num_tree_per_iteration=1", "label_index=0",
            "max_feature_idx=%d" % (len(names) - 1), "objective=regression", "feature_names=" + " ".join(names),
            "feature_infos=" + " ".join("[0:3]" for _ in names)]
    blocks = []
    for ti, t in enumerate(forest_trees):
        order = None if orders is None else orders[ti]
        leaves = [0]
        if order is None:
            order = []

            def pre(x, path):
                if x is not None:
                    order.append(path)
                    pre(x[1], path + (0,))
                    pre(x[2], path + (1,))
            pre(t, ())
        ids = {p: i for i, p in enumerate(order)}
        inner = [None] * len(order)

        def go(x, path):
            if x is None:
                leaves[0] += 1
                return -leaves[0]
            inner[ids[path]] = [x[0], go(x[1], path + (0,)), go(x[2], path + (1,))]
            return ids[path]
        go(t, ())
        nl = leaves[0]
        lines = ["Tree=%d" % ti, "num_leaves=%d" % nl, "num_cat=0"]
        if inner:
            j = lambda f: " ".join(str(f(x)) for x in inner)
            lines += ["split_feature=" + j(lambda x: x[0][0]), "split_gain=" + j(lambda x: x[0][1]),
                      "threshold=" + j(lambda x: 0.5), "decision_type=" + j(lambda x: 2),
                      "left_child=" + j(lambda x: x[1]), "right_child=" + j(lambda x: x[2])]
        lines += ["leaf_value=" + " ".join("0.25" for _ in range(nl)), "leaf_weight=" + " ".join("1" for _ in range(nl)),
                  "leaf_count=" + " ".join("1" for _ in range(nl))]
        if inner:
            lines += ["internal_value=" + j(lambda x: 0), "internal_weight=" + j(lambda x: 1),
                      "internal_count=" + j(lambda x: 2)]
        lines += ["is_linear=0", "shrinkage=1", "", ""]
        blocks.append("\n".join(lines) + "\n")
    sizes = " ".join(str(len(b)) for b in blocks)
    text = "\n".join(head + ["tree_sizes=" + sizes, ""]) + "\n" + "".join(blocks) + "end of trees\n\n" + \
        "feature_importances:\n\nparameters:\nend of parameters\n\npandas_categorical:null\n"
    return lgb.Booster(model_str=text)
