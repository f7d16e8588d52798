"""C21: diversity model against an explicit greedy reference, over all observation words, splits and clears."""
import itertools
import math

import numpy
from diamondback import DiversityModel

from mc.core import Out, Violation
from mc.util import compositions, cut, need, rejects, same, signal

ID, LEVEL = "C21", "model_checking"
RULE = (
    "case = (style, order, dimension, first observations): every continuation over a grid of points, in every split into fits; or a sequence of fits, clears and rejected fits. "
    "State = (style, order, members, distance). Nontrivial: an observation was considered for replacement."
)
ASSUMPTIONS = [
    "between replacements of equal minimum distance, and improvements within rounding (1e-9 relative), either choice is accepted; the distance of an order 0 model is infinite (there is no pair)",
    "observations are finite; the value reported while the model fills is only required not to decrease",
]
BATCH = 4
STYLES = ("Chebyshev", "Euclidean", "Geometric", "Manhattan")
GRIDS = {
    1: [(0.0,), (1.0,), (2.5,), (-3.0,), (7.0,)],
    2: [(0.0, 0.0), (1.0, 0.5), (-2.0, 3.0), (4.0, 4.5), (0.5, -6.0)],
    3: [(0.0, 0.0, 0.0), (1.0, 2.0, 4.0), (-3.0, 1.5, 0.5), (2.0, -5.0, 3.0), (6.0, 7.0, -8.0)],
}


def cases(tier, seed):
    quick = tier == "quick"
    for style in STYLES:
        for order in (0, 1, 2, 3) if quick else (0, 1, 2, 3, 4):
            for dim in (1, 2, 3):
                n, g = {0: (4, 5), 1: (5, 5), 2: (6, 4), 3: (6, 4), 4: (6, 4)}[order]
                if not quick:
                    n += order < 3
                elif order > 1:
                    g = 3
                for head in itertools.product(range(g), repeat=2):
                    yield dict(k="words", style=style, order=order, dim=dim, n=n, head=list(head), grid=g, full=2 if quick and order > 1 else 3)
                if 0 < order < 3 and dim < 3:
                    for g in (1e140, 1e-140, 1e301, 1e9, 1e-9):
                        if g < 1e300 or style in ("Chebyshev", "Manhattan"):
                            for head in range(4):
                                yield dict(k="words", style=style, order=order, dim=dim, n=5, head=[head], grid=4, full=0, g=g)
                for n in (8, 20) if quick else (8, 20, 60):
                    for kind in ("gen", "int", "list", "rows"):
                        yield dict(k="long", style=style, order=order, dim=dim, n=n, kind=kind, seed=seed)
            for head in itertools.product(range(len(OPS)), repeat=2):
                yield dict(k="ops", style=style, order=order, head=list(head), depth=4 if quick else 5, seed=seed)
        for order in (6, 9):
            for dim in (1, 4):
                yield dict(k="long", style=style, order=order, dim=dim, n=25, kind="gen", seed=seed)
        for order in (1, 3):
            for dim in (4, 5, 6, 8, 9, 17, 33):
                for kind in ("gen", "list"):
                    yield dict(k="long", style=style, order=order, dim=dim, n=9, kind=kind, seed=seed)
            for dim in (4, 5, 9):
                yield dict(k="axes", style=style, order=order, dim=dim)
        for order in (15, 16, 17, 20, 33):
            for dim in (1, 2):
                yield dict(k="long", style=style, order=order, dim=dim, n=order + 9, kind="gen", seed=seed, trials=3)
    yield dict(k="reject")


OPS = [("fit", 1), ("fit", 2), ("fit", 4), ("clear", 0), ("dim", 0), ("flat", 0), ("empty", 0)]


def distance(style, a, b):
    d = [abs(u - v) for u, v in zip(a, b)]
    if style == "Chebyshev":
        return max(d)
    if style == "Euclidean":
        return math.sqrt(sum(u * u for u in d))
    if style == "Manhattan":
        return sum(d)
    return math.prod(d) ** (1.0 / len(d))


class Ref(object):
    """All member sets the rule permits (ties are resolved either way)."""

    def __init__(self, style, order):
        self.style, self.order = style, order
        self.members, self.last = [], 0.0

    def least(self, members):
        return min((distance(self.style, members[i], members[j]) for i in range(len(members)) for j in range(i)), default=math.inf)

    def options(self, members, x):
        """the member lists permitted after observing x"""
        now = self.least(members)
        trial = [(self.least(members[:k] + [x] + members[k + 1:]), k) for k in range(len(members))]
        best = max(t[0] for t in trial)
        allowed = []
        if math.isinf(now) or best <= now * (1 + 1e-9):
            allowed.append(members)
        if not math.isinf(now) and best != now and best >= now * (1 - 1e-9):
            allowed += [members[:k] + [x] + members[k + 1:] for v, k in trial if v >= best * (1 - 1e-9)]
        return allowed


def observed(model, ref):
    s = numpy.asarray(model.s)
    return [tuple(float(v) for v in r) for r in s]


def feed(out, model, ref, x, what):
    """one fit of rows x, followed row by row with a mirror of single fits when it has more than one row"""
    rows = [tuple(float(v) for v in r) for r in numpy.asarray(x)]
    y = model.fit(x)
    need(isinstance(y, numpy.ndarray) and y.shape == (len(rows),), f"{what}: result {y}")
    out.transitions += 1
    # possible member lists after each observation
    worlds = [ref.members]
    last = ref.last
    for i, row in enumerate(rows):
        if len(worlds[0]) <= ref.order:
            worlds = [w + [row] for w in worlds]
            need(y[i] >= last * (1 - 1e-9), f"{what}: distance {y[i]} after {last}")
            last = float(y[i])
            continue
        nxt = []
        for w in worlds:
            allowed = ref.options(w, row)
            for a in allowed:
                d = ref.least(a)
                if abs(d - y[i]) <= 1e-9 * max(abs(d), 1e-300) or d == y[i]:
                    if a not in nxt:
                        nxt.append(a)
        if not nxt:
            raise Violation(f"{what}: observation {i} {row} of members {worlds[0]}: distance reported {y[i]}, expected {[ref.least(a) for a in allowed]}")
        need(y[i] >= last * (1 - 1e-9), f"{what}: distance {y[i]} after {last}")
        last = float(y[i])
        worlds = nxt[:64]
    s = observed(model, ref)
    if len(worlds[0]) <= ref.order:
        s = s[:len(worlds[0])]
    found = [w for w in worlds if sorted(w) == sorted(s)]
    if not found:
        raise Violation(f"{what}: members {s}, expected {worlds[0]}" + (f" or {worlds[1:]}" if len(worlds) > 1 else ""))
    ref.members, ref.last = list(s), last
    need(numpy.asarray(model.s).shape == (ref.order + 1, len(rows[0])), f"{what}: state of shape {numpy.shape(model.s)}")
    out.state(ref.style, ref.order, sorted(ref.members), round(last, 9) if last < 1e300 else "inf")
    return y


def run_case(spec):
    out = Out()
    k = spec["k"]
    if k == "reject":
        for style in STYLES:
            m = DiversityModel(style, 2)
            for x in ([], [1.0, 2.0], numpy.ones(3), numpy.ones((0, 2)), numpy.ones((2, 0)), numpy.ones((1, 2, 3))):
                rejects(lambda: m.fit(x), f"{style} fit of shape {numpy.shape(x)}")
                out.transitions += 1
            rejects(lambda: DiversityModel(style, -1), f"{style} order -1")
            m.fit([[1.0, 2.0]])
            rejects(lambda: m.fit([[1.0, 2.0, 3.0]]), f"{style} another dimension")
            for name in (style.lower(), style.upper()):
                same(DiversityModel(name, 1).fit([[0.0, 1.0], [2.0, 4.0], [1.0, 5.0]]), DiversityModel(style, 1).fit([[0.0, 1.0], [2.0, 4.0], [1.0, 5.0]]), f"style {name}", rtol=0.0)
        for style in ("", "Cosine", "Euclid"):
            rejects(lambda: DiversityModel(style, 1), f"style {style}")
        out.traces += 1
        out.state("reject")
        out.outcome = spec
        return out
    style, order = spec["style"], spec["order"]
    base = f"{style} order {order}"
    if k == "words":
        grid, n = GRIDS[spec["dim"]], spec["n"]
        grid = [tuple(v * spec.get("g", 1) for v in p) for p in grid]
        splits = list(compositions(n))
        for tail in itertools.product(range(spec["grid"]), repeat=n - len(spec["head"])):
            index = spec["head"] + list(tail)
            w = [grid[i] for i in index]
            # every split for the words over the first points, else one fit of all, of each, and of pairs
            for parts in splits if max(index) < spec["full"] else (splits[0], splits[-1], [2] * (n // 2) + [1] * (n % 2)):
                m, ref = DiversityModel(style, order), Ref(style, order)
                for c in cut(w, parts):
                    feed(out, m, ref, numpy.array(c), f"{base} observations {w} in fits {parts}")
                out.traces += 1
    elif k == "axes":
        # every word of observations which differ from each other along one dimension only
        dim = spec["dim"]
        for axis in range(dim):
            for word in itertools.permutations((0.0, 1.0, 2.5, -3.0, 7.5), 4):
                w = [[5.0 - 0.5 * i if i != axis else v for i in range(dim)] for v in word]
                for parts in ([4], [1, 1, 1, 1], [2, 2]):
                    m, ref = DiversityModel(style, order), Ref(style, order)
                    for c in cut(w, parts):
                        feed(out, m, ref, numpy.array(c), f"{base} observations {w} in fits {parts}")
                    out.traces += 1
    elif k == "long":
        n, dim = spec["n"], spec["dim"]
        for t in range(spec.get("trials", 6)):
            x = signal("gen" if spec["kind"] != "int" else "int", n * dim, spec["seed"] + t).reshape(n, dim)
            if order > 12:
                x = x + 1e-3 * numpy.sin(numpy.arange(n * dim) ** 2.0).reshape(n, dim)       # no ties
            if spec["kind"] == "list":
                x = x.tolist()
            elif spec["kind"] == "rows":
                x = list(x)
            for step in (1, 2, 3, 7, n) if order < 12 else (1, 7, n):
                m, ref = DiversityModel(style, order), Ref(style, order)
                for i in range(0, n, step):
                    feed(out, m, ref, x[i:i + step], f"{base} {spec['kind']} observations in fits of {step}, at {i}")
                out.traces += 1
    else:
        for tail in itertools.product(OPS, repeat=spec["depth"] - 2):
            ops = [OPS[i] for i in spec["head"]] + list(tail) + [("fit", 3)]
            m, ref = DiversityModel(style, order), Ref(style, order)
            dim = 2
            rows = signal("gen", 120, spec["seed"]).reshape(-1, 3)
            p = 0
            for i, (op, v) in enumerate(ops):
                what = f"{base} after {ops[:i + 1]}"
                before = numpy.array(m.s)
                if op == "fit":
                    feed(out, m, ref, rows[p:p + v, :dim], what)
                    p += v
                    continue
                if op == "clear":
                    m.clear()
                    ref = Ref(style, order)
                    dim = 3 if dim == 2 else 2
                    continue
                if op == "dim":
                    if not ref.members:
                        continue
                    rejects(lambda: m.fit(rows[:2, :1]), what)
                elif op == "flat":
                    rejects(lambda: m.fit(rows[0]), what)
                else:
                    rejects(lambda: m.fit([]), what)
                same(m.s, before, f"{what}: state", rtol=0.0)
                out.transitions += 1
            out.traces += 1
    out.outcome = spec
    return out
