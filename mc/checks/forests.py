"""C11, C12: every small tree in every node numbering, and small forests, against the definitions."""
import itertools
import math

from .. import env
from ..core import expect
from ..domain import close, directed_table, feature_table
from ..treegen import depth, expansion_orders, forest, relabel, size, splits, trees

NAMES = ("a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p")


def fallback(t):
    """Height difference between a node and the right-most leaf below it."""
    d = 0
    while t is not None:
        t = t[2]
        d += 1
    return d


def cond_depth(t, f1, f2):
    """(value or None, occurs) of the ordered pair in one tree."""
    nodes = list(splits(t))
    used = {n[0] for n in nodes}
    if f1 not in used or f2 not in used:
        return None, 0
    d1 = min(n[1] for n in nodes if n[0] == f1)
    best, occ = math.inf, 0
    for lab, d, _, sub in nodes:
        if lab != f1 or d != d1:
            continue
        below = [n[1] for n in splits(sub) if n[1] > 0 and n[0] == f2]
        if below:
            best = min(best, min(below) - 1)
            occ = 1
        else:
            best = min(best, fallback(sub))
    return best, occ


def expected_pairs(ts, nf):
    out = {}
    for i, j in itertools.permutations(range(nf), 2):
        r = [cond_depth(t, i, j) for t in ts]
        vals = [v for v, _ in r if v is not None]
        out[(NAMES[i], NAMES[j])] = (sum(vals) / len(vals) if vals else None, sum(o for _, o in r))
    return out


def expected_depth(ts, nf):
    out = {}
    for f in range(nf):
        ds = [min(n[1] for n in splits(t) if n[0] == f) for t in ts if any(n[0] == f for n in splits(t))]
        if ds:
            out[NAMES[f]] = sum(ds) / len(ds)
    return out


def wide_forests(tier):
    """Forests over 5-8 features (20-56 ordered pairs): balanced, one-sided and zigzag trees, every rotation of the labels."""
    def balanced(d):
        return None if d == 0 else (0, balanced(d - 1), balanced(d - 1))

    def chain(k, turn):
        t = None
        for i in range(k):
            t = (0, None, t) if turn(i) else (0, t, None)
        return t
    out = []
    for nf in (5, 6, 8):
        shapes = [balanced(4), chain(nf + 2, lambda i: True), chain(nf + 2, lambda i: False), chain(nf + 2, lambda i: i % 2),
                  balanced(3)]
        steps = [s for s in range(1, nf) if math.gcd(s, nf) == 1]
        for si, step in enumerate(steps):
            for off in range(nf):
                ts = []
                for k in range(2 if tier == "quick" else 5):
                    sh = shapes[(k + si + off) % len(shapes)]
                    ts.append((relabel(sh, [(off + k + step * i + i // nf) % nf for i in range(size(sh))]), None))
                out.append((nf, tuple(ts) + tuple(ts[:1]), ("rfr", "etc", "etr", "rfc")[off % 4]))
    for off in range(0, 16, 5):
        ts = [(relabel(balanced(5), [(off + k + 3 * i + i // 16) % 16 for i in range(31)]), None) for k in range(3)]
        out.append((16, tuple(ts), ("rfr", "etc", "etr", "rfc")[off % 4]))
    return out


def deep_trees(tier):
    """Chains of 12-40 splits (left, right, zigzag) in which one feature starts at every second depth, alone and next to a
    shallow tree; complete trees of 63 and 127 splits."""
    def chain(labs, turn):
        t = None
        for i, lab in enumerate(reversed(labs)):
            t = (lab, None, t) if turn(i) else (lab, t, None)
        return t

    def full(d, lab, i=1):
        return None if d == 0 else (lab(i), full(d - 1, lab, 2 * i), full(d - 1, lab, 2 * i + 1))
    turns = [lambda i: True, lambda i: False, lambda i: i % 2]
    lengths = (12, 25, 40) if tier == "quick" else (12, 18, 25, 40, 70)
    for n in lengths:
        for start in range(1, n, 2):
            for ti, turn in enumerate(turns):
                labs = [0] * start + [1] * (n - start - 1) + [2]
                t = chain(labs, turn)
                yield (3, ((t, None),), ("rfr", "etr", "rfc")[ti])
                if ti == start % 3:
                    yield (3, ((t, None), ((1, (0, None, None), (2, None, None)), None)), "etc")
    for d in (6, 7):
        for nf in (3, 5):
            for off in range(nf):
                yield (nf, ((full(d, lambda i: (i // (off + 1) + i.bit_length()) % nf), None),), "rfr")


def many_trees(tier):
    """Forests of 11 to 130 (thorough: 260) small trees: a minority of unusual trees in front, behind or scattered."""
    common = [(0, (1, None, None), None), (1, None, (0, None, None)), (0, None, (1, (2, None, None), None))]
    rare = [(2, (2, (1, None, None), None), (0, None, None)), (3, (0, None, None), (1, None, (2, None, None))), None]
    for n in (11, 31, 101, 130) + (() if tier == "quick" else (260,)):
        for k in (1, 3, n // 2):
            for place in ("front", "back", "spread"):
                body = [common[(i * i + k) % 3] for i in range(n - k)]
                odd = [rare[(i + k) % 3] for i in range(k)]
                if place == "front":
                    ts = odd + body
                elif place == "back":
                    ts = body + odd
                else:
                    ts = list(body)
                    for i, t in enumerate(odd):
                        ts.insert((i * 7 + 3) % len(ts), t)
                yield (4, tuple((t, None) for t in ts), ("rfr", "rfc", "etr", "etc")[(n + k) % 4])


def full_trees(tier):
    """Complete trees: every labelling of 7 splits over 2 and 3 features; of 15 splits: every labelling of the upper 7
    with 6 (thorough: 32) patterns of the lowest 8."""
    def build(labels, i=0):
        return None if i >= len(labels) else (labels[i], build(labels, 2 * i + 1), build(labels, 2 * i + 2))
    for nf in (2, 3):
        for labs in itertools.product(range(nf), repeat=7):
            yield (nf, ((build(labs), None),), "rfr")
    for labs in itertools.product(range(2), repeat=7):
        for pat in range(0, 256, 43 if tier == "quick" else 8):
            yield (2, ((build(labs + tuple(pat >> i & 1 for i in range(8))), None),), "etr")


def enumerate_forests(tier):
    quick = tier == "quick"
    out = []
    # single trees, depth-first numbering
    for nf, ks in ((2, range(0, 6 if quick else 7)), (3, range(0, 5 if quick else 6)), (4, range(2, 4 if quick else 5))):
        for k in ks:
            for t in trees(k, range(nf)):
                out.append((nf, ((t, None),), "rfr"))
    # every best-first numbering
    for nf, ks in ((2, (2, 3, 4) if quick else (2, 3, 4, 5)), (3, (3,) if quick else (3, 4))):
        for k in ks:
            for t in trees(k, range(nf)):
                for o in expansion_orders(t):
                    out.append((nf, ((t, o),), "rfc" if k % 2 else "etr"))
    # forests of two trees
    small = [t for k in (0, 1, 2) for t in trees(k, range(2))]
    for a, b in itertools.product(small, repeat=2):
        out.append((2, ((a, None), (b, None)), "etc"))
    small3 = [t for k in (0, 1, 2) for t in trees(k, range(3))]
    for a, b in itertools.product(small3, repeat=2):
        out.append((3, ((a, None), (b, None)), "rfr"))
    # two and three trees, mixed sizes
    big = [t for t in trees(3, range(2))]
    for i, a in enumerate(big):
        for b in small[1:]:
            out.append((2, ((a, None), (b, None), (big[(i * 7 + 3) % len(big)], None)), "rfc"))
    if not quick:
        b3 = [t for t in trees(3, range(3))]
        for a, b in itertools.product(b3, small3):
            out.append((3, ((a, None), (b, None)), "rfr"))
    out += wide_forests(tier)
    out += full_trees(tier)
    out += deep_trees(tier)
    out += many_trees(tier)
    # order: fewest splits first
    out.sort(key=lambda c: sum(size(t) for t, _ in c[1]))
    return out


class Forests:
    chunk = 120
    rule = ("a case is a forest (trees with node numbering, estimator class); non-trivial: some pair of features is used "
            "together in one tree, by distinct case")
    assumptions = ["the forests are real fitted scikit-learn objects whose tree structure is replaced through the Tree state "
                   "interface; thresholds and leaf values are irrelevant to the measures"]

    def bound(self, tier):
        return ("all trees with up to %d splits over 2 features, %d over 3 and %d over 4 (depth-first ids); all best-first "
                "numberings of all trees with 2-%d splits over 2 features and 3-%d over 3; all 2-tree forests of trees with "
                "up to 2 splits over 2 and 3 features; 3-tree forests mixing 3-split trees; forests of 15-split and chain trees over "
                "5, 6, 8 and 16 features in every label rotation; complete trees of 7 splits (all labellings over 2 and 3 features) and of 15, 63 and 127 splits; chains of 12-40 (thorough: 70) splits with a feature starting at every second depth; forests of 11-130 (thorough: 260) trees; 4 estimator classes" %
                ((5, 4, 3, 4, 3) if tier == "quick" else (6, 5, 4, 5, 4)))

    def cases(self, tier):
        return enumerate_forests(tier)

    def run(self, case, ctx):
        nf, ts, kind = case
        model = forest(NAMES[:nf], ts, kind)
        m = env.ConditionalMinimalDepthMethod()
        m.fit(model)
        ctx.step()
        self.check(case, m, [t for t, _ in ts], nf, ctx)
        ctx.trace()
        ctx.state((nf, tuple(t for t, _ in ts)))
        ctx.seen("numberings", ts)
        if any(len({n[0] for n in splits(t)}) > 1 for t, _ in ts):
            ctx.nt(case)


def isnull(v):
    return v is None or v != v


class C11(Forests):
    id = "C11"

    def check(self, case, m, ts, nf, ctx):
        want = expected_pairs(ts, nf)
        got = directed_table(m.ovo, "root_variable", "variable", m.method)
        occ = directed_table(m.ovo, "root_variable", "variable", "n_occurences")
        expect(set(got) == set(want), "pairs %s instead of %s", sorted(got), sorted(want))
        for p, (v, o) in want.items():
            expect(isnull(got[p]) if v is None else (not isnull(got[p]) and close(got[p], v)),
                   "conditional minimal depth of %s in %r is %r, by definition %r", p, ts, got[p], v)
            expect(int(occ[p]) == o, "pair %s occurs in %r trees of %r, counted %r", p, o, ts, occ[p])
        ctx.seen("distinct_results", repr(sorted(want.items())))
        ctx.sample = {"expected": {str(k): v for k, v in want.items()}}


class C12(Forests):
    id = "C12"

    def check(self, case, m, ts, nf, ctx):
        want = expected_depth(ts, nf)
        got = feature_table(m.feature_importance)
        expect(set(got) == set(want), "features %s instead of %s for %r", sorted(got), sorted(want), ts)
        for f, v in want.items():
            expect(close(got[f], v), "minimal depth of %s in %r is %r, by definition %r", f, ts, got[f], v)
        vals = m.feature_importance["Importance"].tolist()
        expect(vals == sorted(vals), "importance %r is not listed smallest depth first", vals)
        ctx.seen("distinct_results", repr(sorted(want.items())))
        ctx.sample = {"expected": want}
