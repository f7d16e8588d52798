"""C13: polynomial rate conversion against the local polynomial at every output position."""
import itertools
import math

import numpy
from diamondback import PolynomialRateFilter

from mc.core import Out, Violation
from mc.util import EXTREME, flat, need, rejects, same, scale, signal, words

ID, LEVEL = "C13", "model_checking"
RULE = (
    "case = (order, rate): every length of the bound x every signal of the alphabet (generic, affine, words, ints, lists); or one sequence of calls, rate and order "
    "changes. State = (order, rate, length, output position). Nontrivial: at least one output."
)
ASSUMPTIONS = ["orders 1 to 3", "double precision, integer or list input", "at a position within 1e-6 of an input sample either adjacent segment is accepted; a length half way between two integers may round either way"]
RATES = (0.0, 0.05, 0.1, 0.2, 0.25, 0.3, 1 / 3, 0.4, 0.5, 0.6, 2 / 3, 0.7, 0.75, 0.9, 0.99, 1.0, 1.01, 1.1, 1.25, 4 / 3, 1.5, 1.7, 2.0, 2.5, math.e, 3.0, math.pi, 4.0, 5.5, 7.3, 10.0, 16.0, 33.3, 100.0)
AFFINE = ((0.0, 1.0), (2.0, 0.0), (-3.0, 0.5), (1e3, -7.0))


def cases(tier, seed):
    quick = tier == "quick"
    rates = RATES if quick else tuple(sorted(set(RATES) | {round(0.05 * k, 2) for k in range(1, 101)}))
    for order in (1, 2, 3):
        for rate in rates:
            yield dict(k="len", order=order, rate=rate, top=24 if quick else 48, seed=seed)
            yield dict(k="flat", order=order, rate=rate, seed=seed)
            for n in (64, 100, 257) if quick else (64, 99, 100, 128, 257, 1000):
                yield dict(k="long", order=order, rate=rate, n=n, seed=seed)
        for rate in (0.3, 0.5, 1.0, 1.5):
            for n in (1025, 4097, 16385, 65537):
                yield dict(k="long", order=order, rate=rate, n=n, seed=seed)
        for rate in (0.5, 0.75, 1.0, 1.5, 2.0, math.pi):
            for w in words((-1.0, 0.0, 2.0), 5 if quick else 6):
                if len(w) > 1:
                    yield dict(k="word", order=order, rate=rate, w=list(w))
    depth = 4 if quick else 5
    for head in itertools.product(range(len(OPS)), repeat=2):
        yield dict(k="ops", head=list(head), depth=depth, seed=seed)


OPS = [("f", 2), ("f", 5), ("r", 0.0), ("r", 0.5), ("r", 1.0), ("r", 2.3), ("o", 1), ("o", 2), ("o", 3), ("badr", -0.5), ("bado", 0), ("badf", 1)]


def fit(x, order):
    """(extended samples by position, function (segment, t) -> value of the local polynomial at t in the segment)"""
    x = [float(v) for v in numpy.asarray(x)]
    e = [2 * x[0] - x[1]] + x + [2 * x[-1] - x[-2], 3 * x[-1] - 2 * x[-2]]
    # least squares on abscissae -1, 0, 1, 2: exact normal equations
    V = numpy.array([[float(t) ** k for k in range(order + 1)] for t in (-1, 0, 1, 2)])
    P = numpy.linalg.solve(V.T @ V, V.T)
    cache = {}

    def value(m, t):
        if order == 1:
            return e[m + 1] * (1 - t) + e[m + 2] * t
        if m not in cache:
            cache[m] = P @ numpy.array(e[m:m + 4])
        return sum(c * t ** k for k, c in enumerate(cache[m]))

    return value


def compare(out, f, x, order, rate, what):
    n = len(x)
    y = f.filter(x)
    exact = n * rate
    lo, hi = math.floor(exact + 0.5 - 1e-9), math.floor(exact + 0.5 + 1e-9)
    need(isinstance(y, numpy.ndarray) and y.ndim == 1 and lo <= len(y) <= hi or abs(exact - math.floor(exact) - 0.5) < 1e-9 and len(y) in (math.floor(exact), math.ceil(exact)),
         f"{what}: {len(y)} outputs, expected {lo}")
    value = fit(x, order)
    m = 8.0 * scale(x)
    for k in range(len(y)):
        p = k / rate
        i = min(math.floor(p), n - 1)
        got = float(y[k])
        want = value(i, p - i)
        ok = abs(got - want) <= 1e-8 * m
        if not ok and i > 0 and p - i < 1e-6:
            ok = abs(got - value(i - 1, p - i + 1)) <= 1e-6 * m
        if not ok and i + 1 < n and p - i > 1 - 1e-6:
            ok = abs(got - value(i + 1, p - i - 1)) <= 1e-6 * m
        if not ok:
            raise Violation(f"{what}: output {k} at position {p} is {got}, expected {want}")
        out.state(order, rate, n, k)
    out.transitions += 1
    return y


def run_case(spec):
    out = Out()
    k = spec["k"]
    if k == "ops":
        for tail in itertools.product(OPS, repeat=spec["depth"] - 2):
            ops = [OPS[i] for i in spec["head"]] + list(tail) + [("f", 4)]
            f, rate, order = PolynomialRateFilter(rate=1.5, order=1), 1.5, 1
            x = signal("gen", 40, spec["seed"])
            for i, (op, v) in enumerate(ops):
                what = f"rate {rate} order {order} after {ops[:i + 1]}"
                if op == "f":
                    compare(out, f, x[i:i + v], order, rate, what)
                elif op == "r":
                    f.rate = rate = v
                elif op == "o":
                    f.order = order = v
                elif op == "badr":
                    rejects(lambda: setattr(f, "rate", v), what)
                elif op == "bado":
                    rejects(lambda: setattr(f, "order", v), what)
                else:
                    rejects(lambda: f.filter(x[:v]), what)
                need(f.rate == rate and f.order == order, f"{what}: rate {f.rate} order {f.order}")
                out.transitions += 1
            out.traces += 1
        out.outcome = spec
        return out
    order, rate = spec["order"], spec["rate"]
    what = f"order {order} rate {rate}"
    f = PolynomialRateFilter(rate=rate, order=order)
    if k == "word":
        compare(out, f, numpy.array(spec["w"]), order, rate, f"{what} of {spec['w']}")
        out.traces += 1
    elif k == "flat":
        for n, pairs in ((33, [(i, j) for i in range(0, 33, 4) for j in range(i + 1, 33, 5)]), (65, [(0, 1), (1, 64), (30, 31), (62, 64), (63, 64)]), (8, [(i, j) for i in range(8) for j in range(i)])):
            for x in flat(n, pairs if rate < 20 else pairs[:3]):
                compare(out, f, x, order, rate, f"{what} of ones except {[(int(i), float(x[i])) for i in numpy.flatnonzero(x != 1.0)]}, length {n}")
            out.traces += 1
    elif k == "long":
        compare(out, f, signal("gen", spec["n"], spec["seed"]), order, rate, f"{what} length {spec['n']}")
        out.traces += 1
    else:
        for n in range(2, spec["top"] + 1):
            for name in ("gen", "int", "list", "ilist", "alt", "imp", "neg", "late", "i8", "u8", "f32", "big", "tiny", "nano", "mega", "view", *EXTREME):
                x = signal(name, n, spec["seed"] + n)
                # the same instance for every call: calls are independent of each other
                y = compare(out, f, x, order, rate, f"{what} of {list(x)}")
                if name == "gen" and order != 2:
                    for i in range(len(y)):
                        p = i / rate
                        if abs(p - round(p)) < 1e-12:
                            same(y[i], x[round(p)], f"{what} of {list(x)} at sample {round(p)}", ref=scale(x) * 4)
                out.traces += 1
            for c0, c1 in AFFINE:
                y = f.filter(c0 + c1 * numpy.arange(n))
                same(y, c0 + c1 * numpy.arange(len(y)) / rate, f"{what} of affine {c0} + {c1} n, length {n}", ref=abs(c0) + abs(c1) * (n + 2), rtol=1e-8)
                out.traces += 1
                out.transitions += 1
    out.outcome = spec
    return out
