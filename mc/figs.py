"""Reading matplotlib figures: generic description, and the content of each kind of plot."""
import math

import matplotlib.pyplot as plt
import numpy as np
from matplotlib import colors as mcolors
from matplotlib.collections import LineCollection, PathCollection, QuadMesh
from matplotlib.patches import FancyArrowPatch, Rectangle

from .core import expect


def num(x):
    x = float(x)
    if math.isnan(x):
        return "nan"
    return float("%.9g" % (x + 0.0))


def nums(a):
    a = np.ma.filled(np.ma.asarray(a, dtype=float), np.nan)
    return tuple(num(v) for v in np.ravel(a))


def describe(fig):
    """A canonical, comparable description of everything a figure shows."""
    out = []
    sup = fig._suptitle.get_text() if fig._suptitle is not None else None
    for ax in fig.axes:
        items = []
        for p in ax.patches:
            if isinstance(p, Rectangle):
                items.append(("bar", nums([p.get_x(), p.get_y(), p.get_width(), p.get_height()]), nums(p.get_facecolor())))
            elif isinstance(p, FancyArrowPatch):
                items.append(("arrow", nums(np.ravel(p._posA_posB) if p._posA_posB else []), num(p.get_linewidth()),
                              nums(p.get_edgecolor())))
            else:
                items.append((type(p).__name__,))
        for l in ax.lines:
            items.append(("line", nums(np.asarray(l.get_xdata(orig=False), float)),
                          nums(np.asarray(l.get_ydata(orig=False), float)), str(l.get_color())))
        for c in ax.collections:
            items.append((type(c).__name__, nums(c.get_offsets()), nums(c.get_linewidths()),
                          nums(c.get_sizes()) if hasattr(c, "get_sizes") else (),
                          nums(c.get_array()) if c.get_array() is not None else (),
                          tuple(nums(s) for s in c.get_segments()) if isinstance(c, LineCollection) else (),
                          nums(c.get_facecolor()) if len(np.ravel(c.get_facecolor())) < 400 else ()))
        for t in ax.texts:
            items.append(("text", t.get_text(), nums(t.get_position())))
        out.append((ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), nums(ax.get_xlim()), nums(ax.get_ylim()),
                    tuple(t.get_text() for t in ax.get_xticklabels()), tuple(t.get_text() for t in ax.get_yticklabels()),
                    ax.get_xscale(), tuple(items)))
    return (sup, nums(fig.get_size_inches()), tuple(out))


def first_difference(a, b, path="figure"):
    if type(a) is not type(b) or (isinstance(a, tuple) and len(a) != len(b)):
        return "%s: %s against %s" % (path, str(a)[:200], str(b)[:200])
    if isinstance(a, tuple):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, "%s[%d]" % (path, i))
        return None
    return None if a == b else "%s: %r against %r" % (path, a, b)


class newfigs:
    """with newfigs() as figs: ... ; figs.list holds the figures opened inside."""

    def __enter__(self):
        self.before = set(plt.get_fignums())
        return self

    def __exit__(self, *a):
        self.list = [plt.figure(n) for n in plt.get_fignums() if n not in self.before]
        return False


def one_figure(fn):
    with newfigs() as f:
        fn()
    expect(len(f.list) == 1, "the plot opened %d figures", len(f.list))
    return f.list[0]


# ---------------------------------------------------------------- heatmap
def heatmap_content(ax):
    """{(row, column): value}, {(row, column): printed}, row names, column names, [(colormap name, cells)]"""
    rows = [t.get_text() for t in ax.get_yticklabels()]
    cols = [t.get_text() for t in ax.get_xticklabels()]
    meshes = [c for c in ax.collections if isinstance(c, QuadMesh)]
    cells, maps = {}, []
    ylo, yhi = ax.get_ylim()
    xlo, xhi = ax.get_xlim()
    for q in meshes:
        arr = np.ma.asarray(q.get_array(), dtype=float).reshape(len(rows), len(cols))
        mine = []
        for i, r in enumerate(rows):
            for j, c in enumerate(cols):
                if np.ma.getmaskarray(arr)[i, j] or np.isnan(float(arr[i, j])):
                    continue
                expect((r, c) not in cells, "cell (%s, %s) is drawn twice", r, c)
                cells[(r, c)] = float(arr[i, j])
                mine.append((r, c))
        maps.append((q.get_cmap(), mine, q.norm))
    texts = {}
    for t in ax.texts:
        if t.get_text() == "--":        # how the installed seaborn prints masked cells
            continue
        x, y = t.get_position()
        i, j = int(math.floor(y)), int(math.floor(x))
        k = (rows[i], cols[j])
        expect(k not in texts, "two numbers in cell %s", k)
        texts[k] = t.get_text()
    expect(ylo > yhi or len(rows) == 0, "heatmap rows are drawn bottom up")
    expect(xlo < xhi, "heatmap columns are drawn right to left")
    return cells, texts, rows, cols, maps


def luminance(rgba):
    r, g, b = rgba[:3]
    return 0.2126 * r + 0.7152 * g + 0.0722 * b


def darker_with_value(cmap):
    """True if larger values get darker colours."""
    return luminance(cmap(1.0)) < luminance(cmap(0.0))


# ---------------------------------------------------------------- bars
def barh_content(ax):
    """[(label, length)] from top to bottom."""
    bars = [p for p in ax.patches if isinstance(p, Rectangle)]
    ticks = {round(float(y), 6): t.get_text() for y, t in zip(ax.get_yticks(), ax.get_yticklabels())}
    out = []
    for b in bars:
        mid = round(b.get_y() + b.get_height() / 2, 6)
        expect(mid in ticks, "a bar has no label (position %r, labels at %r)", mid, sorted(ticks))
        expect(abs(b.get_x()) < 1e-12, "a bar starts at %r", b.get_x())
        out.append((mid, ticks[mid], b.get_width()))
    lo, hi = ax.get_ylim()
    out.sort(key=lambda t: t[0], reverse=lo < hi)
    return [(l, w) for _, l, w in out]


# ---------------------------------------------------------------- graph
def graph_content(ax):
    """nodes {label: (position, size)}, edges [(u, v, width)], labels {text at position}"""
    pcs = [c for c in ax.collections if isinstance(c, PathCollection)]
    expect(len(pcs) == 1, "%d node collections", len(pcs))
    pos = [tuple(map(float, p)) for p in np.ma.getdata(pcs[0].get_offsets())]
    sizes = [float(s) for s in pcs[0].get_sizes()]
    if len(sizes) == 1 and len(pos) > 1:
        sizes = sizes * len(pos)
    texts = [(tuple(map(float, t.get_position())), t.get_text()) for t in ax.texts]
    nodes, free = {}, []
    near = lambda p, q: math.hypot(p[0] - q[0], p[1] - q[1]) < 1e-6
    used = set()
    for i, p in enumerate(pos):
        hit = [k for k, (q, s) in enumerate(texts) if near(p, q) and k not in used]
        expect(len(hit) >= 1, "a node at %r has no label", p)
        nodes.setdefault("__order__", []).append(hit)
    order = nodes.pop("__order__", [])
    node_list = []
    for i, hit in enumerate(order):
        k = [h for h in hit if h not in used][0]
        used.add(k)
        expect(texts[k][1] not in nodes, "two nodes labelled %s", texts[k][1])
        nodes[texts[k][1]] = (pos[i], sizes[i])
    free = [t for k, t in enumerate(texts) if k not in used]

    def who(p):
        for n, (q, s) in nodes.items():
            if near(p, q):
                return n
        expect(False, "an edge ends at %r where there is no node", p)
    edges = []
    for c in ax.collections:
        if isinstance(c, LineCollection):
            segs = c.get_segments()
            lw = [float(w) for w in c.get_linewidths()]
            if len(lw) < len(segs):
                lw = (lw * len(segs))[:len(segs)] if lw else [0.0] * len(segs)
            for s, w in zip(segs, lw):
                edges.append((who(tuple(s[0])), who(tuple(s[-1])), w))
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch) and p._posA_posB is not None:
            a, b = p._posA_posB
            edges.append((who(tuple(map(float, a))), who(tuple(map(float, b))), float(p.get_linewidth())))
    return nodes, edges, free
