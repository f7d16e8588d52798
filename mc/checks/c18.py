"""C18: wavelet analysis and synthesis over every style, order, count and shape of the bound."""
import itertools

import numpy
from diamondback import WaveletTransform

from mc.core import Out
from mc.util import EXTREME, need, rejects, same, scale, signal

ID, LEVEL = "C18", "model_checking"
RULE = (
    "case = (style, order, count, shape): every signal of the alphabet through one reused instance, compared with the matrices measured by impulses; every impulse; every rejected shape and count; every word of the bound for Haar. "
    "State = (style, order, count, shape, signal). Nontrivial: a dimension is not one."
)
ASSUMPTIONS = ["real signals", "coefficients of the documented styles are accurate to 1e-7 (reconstruction is compared to 1e-6 of the scale); everything else to 1e-9"]
ORDERS = dict(Coiflet=range(5, 30, 6), Daubechies=range(3, 20, 2), Haar=(1,), Symmlet=range(7, 20, 2))
SIGNALS = ("gen", "int", "list", "ilist", "late", "alt", "step", "big", "zero", "tiny", "nano", "mega", "i8", "view", *EXTREME)


def cases(tier, seed):
    quick = tier == "quick"
    for style, orders in ORDERS.items():
        for order in orders:
            for count in (1, 2, 3) if quick else (1, 2, 3, 4):
                m = 2 ** count
                if style == "Haar":
                    lengths = [1] + [m * k for k in ((1, 2, 3, 4) if quick else (1, 2, 3, 4, 5, 7))]
                else:
                    lengths = [1, m, 3 * m] + ([2 * m, max(16 * 2 // m, 1) * m] if not quick else [])
                for c in sorted(set(lengths + [m * k for k in (4, 8, 13)])):
                    yield dict(k="one", style=style, order=order, count=count, n=c, seed=seed)
                for r, c in itertools.product(sorted(set(lengths)), repeat=2):
                    yield dict(k="two", style=style, order=order, count=count, r=r, c=c, seed=seed)
            yield dict(k="reject", style=style, order=order)
            yield dict(k="spell", style=style, order=order)
    for style, order in (("Haar", 1), ("Daubechies", 3), ("Daubechies", 11), ("Coiflet", 5), ("Symmlet", 9)):
        for n in (512, 1024, 2048, 4096, 8192, 10240, 65536, 131072):
            yield dict(k="huge", style=style, order=order, n=n, seed=seed)
    for style, order in (("Haar", 1), ("Daubechies", 3)):
        for r, c in ((32, 256), (256, 32), (64, 64), (128, 128)):
            yield dict(k="two", style=style, order=order, count=2, r=r, c=c, seed=seed)
    for n in (2, 4, 6, 8) if quick else (2, 4, 6, 8, 10):
        yield dict(k="words", n=n)
    for r, c in ((2, 2), (2, 4), (4, 2)):
        yield dict(k="words2", r=r, c=c)
    yield dict(k="badstyle")


def matrices(style, order, n):
    """One-level analysis and synthesis of length n as matrices, from impulses on fresh instances."""
    if n == 1:
        return numpy.eye(1), numpy.eye(1)
    a, s = numpy.zeros((n, n)), numpy.zeros((n, n))
    for j in range(n):
        e = numpy.zeros(n)
        e[j] = 1.0
        a[:, j] = WaveletTransform(style, order).transform(e, 1)
        s[:, j] = WaveletTransform(style, order).transform(e, 1, True)
    return a, s


_CACHE = {}


def mats(style, order, n):
    if (style, order, n) not in _CACHE:
        _CACHE[style, order, n] = matrices(style, order, n)
    return _CACHE[style, order, n]


def analysis(style, order, x, count):
    """Reference of any count, from one-level matrices, applied recursively to the low-pass portion."""
    y = numpy.array(x, float)
    r, c = y.shape
    for _ in range(count):
        a, b = mats(style, order, r)[0], mats(style, order, c)[0]
        y[:r, :c] = a @ y[:r, :c] @ b.T
        r, c = max(r // 2, 1), max(c // 2, 1)
    return y


def synthesis(style, order, x, count):
    y = numpy.array(x, float)
    r, c = y.shape
    sizes = []
    for _ in range(count):
        sizes.append((r, c))
        r, c = max(r // 2, 1), max(c // 2, 1)
    for r, c in reversed(sizes):
        a, b = mats(style, order, r)[1], mats(style, order, c)[1]
        y[:r, :c] = a @ y[:r, :c] @ b.T
    return y


def level(style, order, x, inverse):
    """One level of any length, from the shift invariance (checked for short ones) of a level of 64."""
    a, s = mats(style, order, 64)
    n = len(x)
    y = numpy.zeros(n)
    if not inverse:
        for half in (0, 1):
            t = a[half * 32 + 31][::-1]         # t[k] weighs x[2 i + 1 - k]
            y[half * n // 2:(half + 1) * n // 2] = numpy.convolve(x, t)[1:n + 1:2]
    else:
        for half in (0, 1):
            u = numpy.zeros(n)
            u[::2] = x[half * n // 2:(half + 1) * n // 2]
            y += numpy.convolve(u, s[:, half * 32])[:n]
    return y


def delayed(x, d):
    """x delayed by d in each dimension that is not one."""
    for axis in range(x.ndim):
        if x.shape[axis] > 1:
            y = numpy.zeros(x.shape)
            k = x.shape[axis]
            if d < k:
                src = [slice(None)] * x.ndim
                dst = [slice(None)] * x.ndim
                src[axis], dst[axis] = slice(0, k - d), slice(d, k)
                y[tuple(dst)] = x[tuple(src)]
            x = y
    return x


def check(out, w, style, order, count, x, what):
    v = numpy.asarray(x, float)
    v2 = v if v.ndim == 2 else v.reshape(1, -1)
    m = 8.0 * scale(v)
    y = w.transform(x, count, False)
    same(y, analysis(style, order, v2, count).reshape(v.shape), f"{what}: analysis", ref=m)
    z = w.transform(x, count, True)
    same(z, synthesis(style, order, v2, count).reshape(v.shape), f"{what}: synthesis", ref=m * 4 ** count)
    if style == "Haar" or count == 1:
        d = 0 if style == "Haar" else order - 1
        same(w.transform(y, count, True), delayed(v, d), f"{what}: synthesis of analysis", rtol=1e-9 if style == "Haar" else 1e-6, ref=scale(v))
    same(w.transform(x, count), y, f"{what}: repeated analysis", rtol=0.0)
    out.transitions += 4
    out.traces += 1
    return y


def run_case(spec):
    out = Out()
    k = spec["k"]
    if k in ("one", "two"):
        style, order, count, seed = spec["style"], spec["order"], spec["count"], spec["seed"]
        w = WaveletTransform(style, order)
        if k == "one":
            n = spec["n"]
            a, s = mats(style, order, n)
            if n > 1 and count == 1:
                # one time-invariant filter of unit gain and one of none, decimated
                for half, gain in ((0, 1.0), (1, 0.0)):
                    h = a[half * n // 2:(half + 1) * n // 2]
                    for i in range(1, n // 2):
                        same(h[i, 2:], h[i - 1, :-2], f"{style} {order} length {n}: shift of filter {half}", ref=1.0)
                        need(not numpy.abs(h[i - 1, 2 * i:]).max() > 1e-12, f"{style} {order} length {n}: filter {half} is not causal")
                    if n >= 2 * (order + 1):
                        same(h[-1].sum(), gain, f"{style} {order}: gain of filter {half}", rtol=1e-6, ref=1.0)
            for name in SIGNALS:
                x = signal(name, n, seed + n)
                what = f"{style} {order} count {count} length {n} of {name}"
                y = check(out, w, style, order, count, x, what)
                same(w.transform(numpy.asarray(x).reshape(1, n), count), numpy.asarray(y).reshape(1, n), f"{what} as a row", rtol=0.0)
                same(w.transform(numpy.asarray(x).reshape(n, 1), count)[:, 0], y, f"{what} as a column", rtol=1e-12, ref=scale(y))
                out.state(style, order, count, n, name)
            x1, x2 = signal("gen", n, seed), signal("late", n, seed)
            for inverse in (False, True):
                u = w.transform(2.0 * x1 - 3.0 * x2, count, inverse)
                v = 2.0 * w.transform(x1, count, inverse) - 3.0 * w.transform(x2, count, inverse)
                same(u, v, f"{style} {order} count {count} length {n} inverse {inverse}: linearity", ref=50.0)
        else:
            r, c = spec["r"], spec["c"]
            for name in ("gen", "int", "ilist", "imp", "late", "nano", "mega", "i8"):
                x = numpy.asarray(signal(name, r * c, seed + r)).reshape(r, c)
                if name == "ilist":
                    x = x.tolist()
                check(out, w, style, order, count, x, f"{style} {order} count {count} shape {(r, c)} of {name}")
                out.state(style, order, count, r, c, name)
            out.trivial = r * c == 1
    elif k == "words":
        w = WaveletTransform("Haar", 1)
        n = spec["n"]
        for word in itertools.product((-1, 0, 2), repeat=n):
            count = 1
            while n % (2 ** count) == 0:
                check(out, w, "Haar", 1, count, list(word), f"Haar count {count} of {word}")
                out.state(word, count)
                count += 1
            if n <= 6:
                check(out, WaveletTransform("Daubechies", 3), "Daubechies", 3, 1, list(word), f"Daubechies 3 of {word}")
    elif k == "huge":
        style, order, n = spec["style"], spec["order"], spec["n"]
        w = WaveletTransform(style, order)
        x = signal("gen", n, spec["seed"])
        for count in (1, 2, 3, 5, 8):
            y, z = numpy.array(x), numpy.array(x)
            for i in range(count):
                y[:n >> i] = level(style, order, y[:n >> i], False)
            for i in reversed(range(count)):
                z[:n >> i] = level(style, order, z[:n >> i], True)
            same(w.transform(x, count), y, f"{style} {order} count {count} length {n}: analysis", ref=scale(y) * 8)
            same(w.transform(x, count, True), z, f"{style} {order} count {count} length {n}: synthesis", ref=scale(z) * 8)
            out.state(style, order, count, n)
            out.transitions += 2
            out.traces += 1
    elif k == "words2":
        r, c = spec["r"], spec["c"]
        w = WaveletTransform("Haar", 1)
        for word in itertools.product((-1.0, 0.0, 2.0), repeat=r * c):
            x = numpy.array(word).reshape(r, c)
            check(out, w, "Haar", 1, 1, x, f"Haar of {x.tolist()}")
            out.state(word)
    elif k == "reject":
        w = WaveletTransform(spec["style"], spec["order"])
        x = signal("gen", 8)
        want = w.transform(x, 2)
        for inverse in (False, True):
            for n, count in ((3, 1), (5, 1), (6, 2), (2, 2), (4, 3), (12, 3), (7, 1), (10, 2)):
                for v in (numpy.ones(n), [1.0] * n, numpy.ones((1, n)), numpy.ones((n, 1)), numpy.ones((8, n)), numpy.ones((n, 8)), numpy.ones((n, n))):
                    rejects(lambda: w.transform(v, count, inverse), f"{spec}: count {count} shape {numpy.shape(v)}")
                    out.transitions += 1
            for count in (0, -1, -2):
                rejects(lambda: w.transform(numpy.ones(8), count, inverse), f"{spec}: count {count}")
                rejects(lambda: w.transform(numpy.ones((8, 8)), count, inverse), f"{spec}: count {count}")
            rejects(lambda: w.transform(numpy.ones((2, 2, 2)), 1, inverse), f"{spec}: three dimensions")
            rejects(lambda: w.transform([], 1, inverse), f"{spec}: empty")
            out.transitions += 8
        same(w.transform(x, 2), want, f"{spec}: analysis after rejections", rtol=0.0)
        out.traces += 1
        out.state(spec["style"], spec["order"], "reject")
    elif k == "spell":
        style, order = spec["style"], spec["order"]
        x = signal("gen", 32)
        want = WaveletTransform(style, order).transform(x, 2)
        for name in (style.lower(), style.upper(), style.swapcase()):
            same(WaveletTransform(name, order).transform(x, 2), want, f"{name} {order}", rtol=0.0)
            out.transitions += 1
        for bad in (order + 1, -order, 0, order + 100):
            rejects(lambda: WaveletTransform(style, bad), f"{style} order {bad}")
        out.traces += 1
        out.state(style, order, "spell")
    else:
        for style in ("", "haar1", "Morlet", "Haar "):
            rejects(lambda: WaveletTransform(style, 1), f"style {style}")
            out.transitions += 1
        for style, orders in ORDERS.items():
            for order in range(-1, 35):
                if order not in orders:
                    rejects(lambda: WaveletTransform(style, order), f"{style} order {order}")
                    out.transitions += 1
        out.traces += 1
        out.state("badstyle")
    out.outcome = spec
    return out
