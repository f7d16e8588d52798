"""C07: derivative filters on polynomials, integral filters against running quadrature."""
import itertools

import numpy
from diamondback import DerivativeFilter, IntegralFilter

from mc.core import Out
from mc.util import EXTREME, compositions, cut, flat, flats, rejects, same, scale, signal, words

ID, LEVEL = "C07", "model_checking"
RULE = (
    "case = (derivative, order, polynomial) with every split into up to three calls, or (integral order, signal) with every composition, every word over a sample "
    "alphabet, long streams; every (derivative, order) around the supported set. State = (filter, last window of the reference). Nontrivial: at least two calls."
)
ASSUMPTIONS = ["polynomials of each degree are combinations of the enumerated basis (the filters are linear)", "rounding up to 1e-9 relative to the largest intermediate value"]
ORDERS = {1: (1, 2, 4), 2: (2, 4, 6, 8), 3: (4, 6, 8)}
W = {0: [1.0], 1: [0.5, 0.5], 2: [1 / 6, 4 / 6, 1 / 6], 3: [1 / 8, 3 / 8, 3 / 8, 1 / 8], 4: [7 / 90, 32 / 90, 12 / 90, 32 / 90, 7 / 90]}


SIGNALS = ("gen", "int", "list", "ilist", "imp", "step", "alt", "late", "gaps", "neg", "big", "tiny", "nano", "mega", "view", "f32", "i8", "u8", *EXTREME)


def cases(tier, seed):
    quick = tier == "quick"
    for d in ORDERS:
        for o in ORDERS[d]:
            top = 4 if (d, o) == (1, 4) else d + 1
            for deg in range(top + 1):
                for origin in (0, 3, -7) if quick else range(-9, 10):
                    for form in ("array", "list", "int"):
                        yield dict(k="der", d=d, o=o, deg=deg, origin=origin, form=form)
            yield dict(k="mix", d=d, o=o, top=top, seed=seed)
            for x in SIGNALS:
                yield dict(k="linear", d=d, o=o, x=x, n=9, seed=seed)
            for big in (1025, 4097, 65537):
                yield dict(k="linear", d=d, o=o, x="gen", n=big, seed=seed)
    for o in W:
        for x in SIGNALS:
            yield dict(k="int", o=o, x=x, n=9 if quick else 13, seed=seed)
        for w in words((-1.0, 0.0, 3.0), 5 if quick else 7):
            yield dict(k="word", o=o, w=list(w))
        for w in words((2.0 ** 30, -(2.0 ** 30), 0.5), 5 if quick else 7):
            yield dict(k="word", o=o, w=list(w), rtol=1e-12)
        for w in words((16777217, 1, -16777216), 5 if quick else 7):
            yield dict(k="word", o=o, w=list(w), rtol=1e-13)
        for w in words((2 ** 40 + 1, 3, -(2 ** 40)), 4 if quick else 6):
            yield dict(k="word", o=o, w=list(w), rtol=1e-14)
        yield dict(k="int", o=o, x="wide", n=9 if quick else 13, rtol=1e-12, seed=seed)
        yield dict(k="drift", o=o)
        for fn, pairs in flats(quick):
            yield dict(k="flat", o=o, n=fn, pairs=pairs, seed=seed)
        for parts in itertools.product((1, 2, 3, 64, 501, 2000), repeat=2):
            yield dict(k="long", o=o, parts=list(parts), seed=seed)
        for big in (4097, 8193, 16385, 32769, 65537, 131073):
            yield dict(k="long", o=o, parts=[big, 9], seed=seed)
            yield dict(k="long", o=o, parts=[3, big, 9], seed=seed)
    yield dict(k="reject")


def run_case(spec):
    out = Out()
    k = spec["k"]
    if k in ("der", "mix"):
        d, o = spec["d"], spec["o"]
        n = o + 6
        if k == "der":
            c = [0.0] * spec["deg"] + [1.0]
            origin = spec["origin"]
        else:
            c, origin = list(signal("gen", spec["top"] + 1, spec["seed"])), 1.0
        t = numpy.arange(n) + float(origin)
        x = sum(v * t ** i for i, v in enumerate(c))
        tc = t - o / 2.0
        q = numpy.polynomial.polynomial.polyder(c, d) if len(c) > d else [0.0]
        want = sum(v * tc ** i for i, v in enumerate(q)) * numpy.ones(n)
        form = spec.get("form", "array")
        x = x if form == "array" else ([float(v) for v in x] if form == "list" else numpy.array([int(v) for v in x]))
        for i in range(1, n + 1):
            for j in range(i, n + 1):
                parts = [v for v in (i, j - i, n - j) if v]
                f = DerivativeFilter(derivative=d, order=o)
                y = numpy.concatenate([f.filter(u) for u in cut(x, parts)])
                same(y[o:], want[o:], f"derivative {d} order {o} of {c} calls {parts}", ref=scale(x) * 8)
                out.traces += 1
                out.transitions += len(parts)
                out.state(d, o, spec.get("deg"), origin, i, j)
        if k == "mix":
            f = DerivativeFilter(d, o)
            f.reset(x[0])
            same(f.filter(numpy.ones(20) * x[0]), numpy.zeros(20), f"derivative {d} order {o} of a constant after reset", ref=abs(x[0]) + 1e-9)
    elif k == "linear":
        # any signal, of any type, is the sum of the impulses it consists of
        d, o, n = spec["d"], spec["o"], spec["n"]
        h = DerivativeFilter(derivative=d, order=o).filter([1.0] + [0.0] * o)
        x = signal(spec["x"], n, spec["seed"])
        want = numpy.convolve(numpy.asarray(x, float), h)[:n]
        for parts in compositions(n) if n < 16 else ([n], [n - 9, 9], [3, n - 3], [n // 2, n - n // 2]):
            f = DerivativeFilter(derivative=d, order=o)
            y = numpy.concatenate([f.filter(u) for u in cut(x, parts)])
            same(y, want, f"derivative {d} order {o} of {spec['x']} {list(x[:9])} calls {parts}", ref=scale(x) * 4, rtol=1e-11)
            out.traces += 1
            out.transitions += len(parts)
            out.state(d, o, spec["x"], n, parts)
    elif k == "reject":
        for d in range(-2, 7):
            for o in range(-1, 12):
                if d not in ORDERS or o not in ORDERS[d]:
                    rejects(lambda: DerivativeFilter(d, o), f"DerivativeFilter({d}, {o})")
                    out.transitions += 1
        for o in (-3, -2, -1, 5, 6, 7, 100):
            rejects(lambda: IntegralFilter(o), f"IntegralFilter({o})")
            out.transitions += 1
        out.state("reject")
        out.traces = 1
    else:
        o = spec["o"]
        if k == "word":
            x, allparts = spec["w"], compositions(len(spec["w"]))
        elif k == "int":
            x, allparts = signal(spec["x"], spec["n"], spec["seed"]), compositions(spec["n"])
        elif k == "flat":
            for x in flat(spec["n"], spec["pairs"]):
                integral(out, o, numpy.concatenate((x, signal("gen", 5, spec["seed"]))), [[spec["n"], 5]], 1e-11)
            out.outcome = spec
            return out
        elif k == "drift":
            # small increments of a large integral, in many calls
            x, allparts = numpy.array([1.0] + [3e-13] * 400), [[1] * 401, [1, 400], [7] * 57 + [2]]
            spec = dict(spec, rtol=1e-13)
        else:
            x, allparts = signal("gen", sum(spec["parts"]), spec["seed"]), [spec["parts"]]
        integral(out, o, x, allparts, spec.get("rtol", 1e-9))
    out.outcome = spec
    return out


def integral(out, o, x, allparts, rtol):
    v = numpy.asarray(x, float)
    want = numpy.cumsum(numpy.convolve(v, W[o])[:len(v)])
    for parts in allparts:
        f = IntegralFilter(order=o)
        y = numpy.concatenate([f.filter(u) for u in cut(x, parts)])
        same(y, want, f"integral order {o} of {list(v[:12])} calls {parts}", ref=scale(numpy.cumsum(v), v) * 4, rtol=rtol)
        out.traces += 1
        out.transitions += len(parts)
        p = 0
        for q in parts:
            p += q
            out.state(o, v[max(0, p - 5):p], want[p - 1])
