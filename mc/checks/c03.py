"""C03: a reset to a level is the persistent steady state: no transient, no memory."""
import copy
import itertools

import numpy
from diamondback import DerivativeFilter, FirFilter, IirFilter, PolyphaseRateFilter, RankFilter

from mc.core import Out
from mc.util import cut, same, scale, signal

ID, LEVEL = "C03", "model_checking"
RULE = (
    "case = filter configuration; explored: every history of up to 2 (thorough 3) operations before the reset x every level x every "
    "split of the constant signal that follows. State = (configuration, operations before the reset, level). Nontrivial: nonzero level or nonempty history."
)
ASSUMPTIONS = ["IIR: unity gain at zero frequency and b[0] != 1, the condition of the documented reset formula", "rounding up to 1e-9 relative to the largest value of the history"]
LEVELS = (0.0, 1.0, -2.5, 1e6, 3, 1e-3)
POLE = ((0.0, 0.9), (0.0, 1.2, -0.5), (0.0, 0.3, -0.2, 0.1), (0.0, -0.7), (0.0, 0.0, 0.5), (0.0, 0.5, 0.25), (0.0,), (0.0, 0.3, 0.0, 0.1, 0.0, 0.0, -0.05, 0.0, 0.0, 0.1, -0.2, 0.05))
FIRS = ([0.5], [0.25, -0.75], [1.0, 0.5, -0.25, 2.0], [1.0, -1.0], [1, 2, 1], [0.0, 0.0, 3.0], [0.1] * 10, [(-1.0) ** i / (i + 1.0) for i in range(40)])
ZERO = ([1.0], [0.2, 0.8], [0.1, 0.2, 0.3], [0.0, 1.0], [0.4, 0.0, 0.0, 0.1], [0.3, -0.1, 0.05, 0.2, 0.1], [0.1, 0.2, -0.1, 0.3, 0.05, 0.1, -0.2, 0.15, 0.1, 0.25, 0.3, -0.15, 0.2, 0.1])
FIRC = ([1j, 0.5], [0.25 + 0.5j], [1.0 + 0j, -1j, 0.5])


def cases(tier, seed):
    d = 2 if tier == "quick" else 3
    for b in range(len(FIRS)):
        yield dict(k="fir", b=b, d=d, seed=seed)
    for b in range(len(FIRC)):
        yield dict(k="firc", b=b, d=d, seed=seed)
    for style in FirFilter.STYLE:
        for c in (False, True):
            yield dict(k="firs", style=style, order=12, c=c, d=d, seed=seed)
    for a, b in itertools.product(range(len(POLE)), range(len(ZERO))):
        yield dict(k="iir", a=a, b=b, d=d, seed=seed)
        yield dict(k="iirc", a=a, b=b, d=d, seed=seed)
    for style in IirFilter.STYLE:
        for order in (1, 2, 3, 4, 5, 6) if style == "Bessel" else (1, 2, 3, 4, 5, 6, 8, 9):
            for count in (1, 2) if tier != "quick" else (1,):
                for f in (0.08, 0.15) if style == "Bessel" else (0.08, 0.3, 0.6)[order > 6:]:
                    yield dict(k="iirs", style=style, order=order, f=f, count=count, d=d, seed=seed)
    for n in range(1, 6):
        yield dict(k="assigned", n=n, seed=seed)
    for derivative in DerivativeFilter.B:
        for order in DerivativeFilter.B[derivative]:
            yield dict(k="der", derivative=derivative, order=order, d=d, seed=seed)
    for order in range(0, 6):
        for index in range(order + 1):
            yield dict(k="rank", order=order, index=index, d=d, seed=seed)
    for rate in (1.0, 0.5, 2.0, 1 / 3, 0.3, 0.75, 1.5, 3.14159, 7.0, 0.01, 16.0, 256.0):
        yield dict(k="poly", rate=rate, d=d, seed=seed)


def make(spec):
    """-> object, function level -> steady output, complex allowed"""
    k = spec["k"]
    if k == "fir":
        b = FIRS[spec["b"]]
        return FirFilter(b=b), lambda v: v * sum(b), False
    if k == "firc":
        b = FIRC[spec["b"]]
        return FirFilter(b=b), lambda v: v * sum(b), True
    if k == "firs":
        f = FirFilter(style=spec["style"], frequency=0.4, order=spec["order"], complement=spec["c"])
        g = float(sum(f.b))
        return f, lambda v: v * g, False
    if k in ("iir", "iirc"):
        a = numpy.array(POLE[spec["a"]])
        b = numpy.array(ZERO[spec["b"]])
        if k == "iirc":
            b = b * numpy.resize([1.0 + 0.3j, 0.5 - 0.2j, 0.7j, 1.0, 0.2 + 1j], len(b))
        b = b * (1.0 - a.sum()) / b.sum()
        if abs(b[0] - 1.0) < 1e-3:
            return None, None, None
        return IirFilter(a=a, b=b), lambda v: v, k == "iirc"
    if k == "iirs":
        f = IirFilter(style=spec["style"], frequency=spec["f"], order=spec["order"], count=spec["count"])
        return f, lambda v: v, False
    if k == "der":
        return DerivativeFilter(spec["derivative"], spec["order"]), lambda v: 0.0, False
    if k == "rank":
        return RankFilter(index=spec["index"], order=spec["order"]), lambda v: v, False
    return PolyphaseRateFilter(rate=spec["rate"]), lambda v: v, False


OPS = ["f1", "f3", "big", "reset", "query"]
TAILS = ([6], [1, 1, 1, 1, 1, 1], [2, 4], [5, 1], [1, 5], [3, 3])


def assigned(out, n, seed):
    """coefficients assigned between resets: the level of the last one is held by the coefficients which are current"""
    sets = []
    for i, (p, z) in enumerate(itertools.product(POLE, ZERO)):
        a, b = numpy.zeros(n), numpy.zeros(n)
        if len(p) > n or len(z) > n:
            continue
        a[:len(p)], b[:len(z)] = p, z
        b *= (1.0 - a.sum()) / b.sum()
        if abs(b[0] - 1.0) > 1e-3:
            sets.append((a, b))
    x = signal("gen", 7, seed)
    for (a1, b1), (a2, b2) in itertools.product(sets, repeat=2):
        for iir in (True, False):
            fresh = IirFilter(a=a2, b=b2) if iir else FirFilter(b=b2)
            fresh.reset(1.5)
            want = fresh.filter(x)
            for order in itertools.permutations(["a", "b"]) if iir else (["b"],):
                for ops in (("reset", "set"), ("set",), ("reset", "filter", "set", "filter"), ("filter", "set", "reset"), ("set", "back", "reset", "set")):
                    f = IirFilter(a=a1, b=b1) if iir else FirFilter(b=b1)
                    for op in ops:
                        if op == "reset":
                            f.reset(-2.0)
                        elif op == "filter":
                            f.filter(x[:3])
                        else:
                            for name in order:
                                setattr(f, name, dict(a=(a1, a2), b=(b1, b2))[name][op == "set"])
                        out.transitions += 1
                    g = b2.sum() if not iir else 1.0
                    for level in (0.75, 1.5):
                        f.reset(level)
                        what = f"a={a1} b={b1} then a={a2} b={b2} by {ops}, reset({level})"
                        same(f.filter([level] * 4), numpy.full(4, level * g), what, ref=level * 8 * max(abs(g), 1.0), rtol=1e-8)
                    f.reset(1.5)
                    same(f.filter(x), want, what + ", compared with a new filter", ref=scale(want, 4.0), rtol=1e-9)
                    out.traces += 1
                    out.state(iir, a2, b2, ops)


def run_case(spec):
    out = Out()
    if spec["k"] == "assigned":
        assigned(out, spec["n"], spec["seed"])
        out.outcome = spec
        return out
    f0, steady, cx = make(spec)
    if f0 is None:
        out.trivial = True
        return out
    levels = LEVELS + ((0.5 - 2j, 1j) if cx else ())
    copies = 0
    for d in range(spec["d"] + 1):
        for ops in itertools.product(OPS, repeat=d):
            for j, level in enumerate(levels):
                f = f0
                x = signal("cgen" if cx else "gen", 8, spec["seed"])
                for i, op in enumerate(ops):
                    if op == "f1":
                        f.filter(x[i:i + 1])
                    elif op == "f3":
                        f.filter(x[i:i + 3])
                    elif op == "big":
                        f.filter(x[:2] * 1e3)
                    elif op == "reset":
                        f.reset(7.5)
                    elif hasattr(f, "response"):
                        f.response(3), f.roots()
                    out.transitions += 1
                f.reset(level)
                parts = TAILS[(copies + j) % len(TAILS)] if d else TAILS[j % len(TAILS)]
                copies += 1
                for c in cut([level] * 6, parts):
                    y = f.filter(c)
                    if spec["k"] != "poly":
                        want = numpy.array([steady(level)] * len(c))
                    else:
                        want = numpy.array([level] * len(y))
                    same(y, want, f"{ {k: v for k, v in spec.items() if k not in ('d', 'seed')} } after {list(ops)}, reset({level}), constant input {parts}",
                         ref=max(scale(level, want), 1e-9) * 8.0, rtol=1e-8)
                    out.transitions += 1
                out.traces += 1
                out.state(spec["k"], [spec.get(q) for q in ("a", "b", "style", "order", "index", "rate", "derivative")], list(ops), level)
    # pasts of samples which coincide with the level, or with zero, at every age
    if spec["k"] != "poly" or spec["rate"] in (1.0, 0.3, 1.5):
        for level in (0.0, 2.0, -1.0):
            base = None
            for n in range(0, 5):
                for w in itertools.product((0.0, 2.0, -1.0), repeat=n):
                    f = make(spec)[0] if spec["k"] in ("fir", "firc", "iir", "iirc", "der", "rank", "poly") else f0
                    if n:
                        f.filter(list(w))
                    f.reset(level)
                    y = f.filter([level] * 5)
                    want = numpy.array([steady(level) if spec["k"] != "poly" else level] * len(y))
                    same(y, want, f"{spec} after {list(w)}, reset({level})", ref=max(scale(level, want), 1e-9) * 8.0, rtol=1e-8)
                    z = f.filter([0.5, -3.0, 1.0, 0.25]) if spec["k"] != "poly" else numpy.zeros(1)
                    if base is None:
                        base = z
                    same(z, base, f"{spec} after {list(w)}, reset({level}) and a signal, compared with a new filter", ref=scale(base, 4.0), rtol=1e-9)
                    out.traces += 1
                    out.transitions += 4
                    out.state(spec["k"], spec.get("a"), spec.get("b"), spec.get("order"), spec.get("index"), w, level)
    # a filter at the steady state of a level passes the level and, of what differs from it, what a new filter would
    if spec["k"] not in ("poly", "rank"):
        f, new = make(spec)[0], make(spec)[0]
        types = (2.0, 3, 0, numpy.float64(1.5), numpy.int64(-2), numpy.float32(0.5), numpy.int8(5), 1e-20, 1e20)
        for level in types + ((0.5 - 2j, complex(2.0, 0.0), numpy.complex64(1 + 1j), 1j) if cx else ()):
            v = complex(level) if isinstance(level, (complex, numpy.complexfloating)) else float(level)
            for name in ("gen", "cgen") if cx else ("gen",):
                x = signal(name, 9, spec["seed"]) * (abs(v) if abs(v) in (1e-20, 1e20) else 1.0)
                fresh = copy.deepcopy(new).filter(x - v) + steady(v)
                for parts in ([9], [1, 8], [4, 5]):
                    f.reset(level)
                    y = numpy.concatenate([f.filter(c) for c in cut(x, parts)])
                    same(y, fresh, f"{spec}, reset({level!r}), then {name} calls {parts}, compared with the level and a new filter of the rest", ref=scale(fresh, x, v) * 8.0, rtol=1e-8)
                    out.traces += 1
                    out.transitions += 1 + len(parts)
    # every split of the constant signal, and a generic signal after a reset is independent of the past
    x = signal("cgen" if cx else "gen", 9, spec["seed"] + 1)
    base = None
    for ops in ((), ("f3",), ("big", "f1"), ("reset", "f3")):
        f = make(spec)[0]
        for op in ops:
            if op == "reset":
                f.reset(-3.0)
            else:
                f.filter(x[:3] * (100.0 if op == "big" else 1.0))
        if spec["k"] == "poly":
            f.rate = 1.0 if spec["rate"] != 1.0 else 2.0   # restarts the sampling phase
            f.rate = spec["rate"]
        f.reset(2.0)
        y = numpy.concatenate([f.filter(c) for c in cut(x, [4, 5])])
        if base is None:
            base = y
        same(y, base, f"{spec} after {list(ops)} and reset, compared with a new filter", ref=scale(base, 1.0), rtol=1e-9)
        out.traces += 1
    out.outcome = [spec["k"], spec.get("a"), spec.get("b"), spec.get("style"), spec.get("order"), spec.get("index"), spec.get("rate"), spec.get("f"), spec.get("derivative"), spec.get("count"), spec.get("c")]
    return out
