"""C15: window filters against the closed forms of the windows, over styles, orders, signals and call sequences."""
import itertools
import math

import numpy
from diamondback import WindowFilter

from mc.core import Out, Violation
from mc.util import EXTREME, need, rejects, same, signal

ID, LEVEL = "C15", "model_checking"
RULE = (
    "case = (style, order, normal): every spelling of the style, every signal of the alphabet, then every sequence of calls (accepted and rejected) of the bound on one instance. "
    "State = (style, order, normal, operation). Nontrivial: an output is produced."
)
ASSUMPTIONS = ["double precision; the windows are compared to 1e-9 of their scale", "single precision signals may give single or double precision products"]
STYLES = ("Blackman", "Hamming", "Hann", "Kaiser")
SIGNALS = ("gen", "cgen", "int", "list", "ilist", "clist", "imp", "alt", "zero", "big", "tiny", "neg", "f32", "late", "i8", "u8", "c64", "nano", "mega", "cnano", "view", "cview", *EXTREME)


def cases(tier, seed):
    quick = tier == "quick"
    orders = list(range(0, 65)) + [99, 100, 127, 128, 255, 256, 511, 1000, 1023, 4096, 10000] if quick else list(range(0, 400)) + [511, 512, 1000, 1023, 1024, 4095, 4096, 10000]
    for style in STYLES:
        for order in orders:
            for normal in (True, False):
                yield dict(style=style, order=order, normal=normal, depth=(3 if order < 20 else 2) if quick else (4 if order < 20 else 3), seed=seed)


def window(style, n):
    """Symmetric window of n points."""
    if n == 1:
        return numpy.ones(1)
    t = [k / (n - 1) for k in range(n)]
    if style == "Hann":
        w = [0.5 - 0.5 * math.cos(2 * math.pi * u) for u in t]
    elif style == "Hamming":
        w = [0.54 - 0.46 * math.cos(2 * math.pi * u) for u in t]
    elif style == "Blackman":
        w = [0.42 - 0.5 * math.cos(2 * math.pi * u) + 0.08 * math.cos(4 * math.pi * u) for u in t]
    else:
        w = [float(numpy.i0(7.0 * math.sqrt(max(1.0 - (2 * u - 1.0) ** 2, 0.0))) / numpy.i0(7.0)) for u in t]
    return numpy.array(w)


def run_case(spec):
    out = Out()
    style, order, normal, seed = spec["style"], spec["order"], spec["normal"], spec["seed"]
    what = f"{style} order {order} normal {normal}"
    w = window(style, order + 1)
    if normal:
        total = sum(abs(w))
        if order == 1 and style in ("Blackman", "Hann"):
            # every point of the window is zero: there is nothing to scale
            b = numpy.array(WindowFilter(style, order, normal).b)
            if not numpy.isfinite(b).all() or numpy.abs(b).max() > 1e-9 and (b < 0).any():
                raise Violation(f"{what}: coefficients {b}", key=f"{style.lower()}-order-1-normal")
            out.trivial = True
            out.outcome = spec
            return out
        w = w * (order + 1) / total
    tol = dict(rtol=1e-9, ref=1.0)
    for name in (style, style.lower(), style.upper(), style.swapcase()):
        f = WindowFilter(name, order, normal)
        b = f.b
        same(b, w, f"{what} spelled {name}: coefficients", **tol)
        same(b[::-1], b, f"{what} spelled {name}: symmetry", rtol=1e-9, ref=1.0)
        out.transitions += 1
    same(WindowFilter(style=style, order=order, normal=normal).b, w, f"{what} by keywords", **tol)
    if normal:
        same(WindowFilter(style, order).b, w, f"{what} by default", **tol)
        same(sum(abs(f.b)) / (order + 1), 1.0, f"{what}: mean magnitude", rtol=1e-9)
    f = WindowFilter(style, order, normal)
    for name in SIGNALS:
        x = signal(name, order + 1, seed + order)
        v = numpy.asarray(x)
        for again in range(2):
            y = f.filter(x)
            same(y, w * v, f"{what} of {name}", rtol=1e-6 if name == "f32" else 1e-9, ref=numpy.abs(w) .max() * max(1e-300, numpy.abs(v).max()))
            need(isinstance(y, numpy.ndarray), f"{what} of {name}: {type(y)}")
            out.transitions += 1
            out.state(style, order, normal, name)
    ops = ["gen", "cgen", "zero", "short", "long", "matrix", "empty", "ilist"]
    for word in itertools.product(ops, repeat=spec["depth"]):
        f = WindowFilter(style, order, normal)
        for i, op in enumerate(word):
            here = f"{what} after {word[:i + 1]}"
            n = order + 1
            if op == "short":
                if n > 1:
                    rejects(lambda: f.filter(numpy.ones(n - 1)), here)
            elif op == "long":
                rejects(lambda: f.filter([1.0] * (n + 1)), here)
            elif op == "matrix":
                rejects(lambda: f.filter(numpy.ones((1, n))), here)
                rejects(lambda: f.filter(numpy.ones((n, 1))), here)
            elif op == "empty":
                rejects(lambda: f.filter([]), here)
            else:
                x = signal(op, n, seed + i)
                same(f.filter(x), w * numpy.asarray(x), here, rtol=1e-9, ref=max(numpy.abs(w).max() * numpy.abs(x).max(), 1e-300))
            out.transitions += 1
        same(f.b, w, f"{what}: coefficients after {word}", **tol)
        out.traces += 1
    out.outcome = spec
    return out
