"""Shared helpers: alphabets of signals and splits, comparison, and reference arithmetic."""
import itertools

import numpy

from mc.core import Violation


def compositions(n):
    """Every way of splitting n samples into consecutive nonempty calls."""
    for mask in range(1 << (n - 1)):
        parts, k = [], 1
        for i in range(n - 1):
            if mask >> i & 1:
                parts.append(k)
                k = 1
            else:
                k += 1
        yield parts + [k]


def generic(seed, n, kind="real"):
    """Deterministic generic values of magnitude in [0.1, 1.1), three decimals."""
    s = (seed * 2654435761 + 12345) & 0xFFFFFFFF
    v = []
    for _ in range(2 * n + 4):
        s = (s * 1664525 + 1013904223) & 0xFFFFFFFF
        m = 0.1 + ((s >> 8) % 1000) / 1000.0
        v.append(m if (s >> 20) & 1 else -m)
    v = numpy.round(numpy.array(v[4:]), 3)
    return v[:n].copy() if kind == "real" else v[:n] + 1j * v[n:2 * n]


EXTREME = tuple("ext:" + t for t in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64")) + ("bilist", "pico", "peta")


def signal(name, n, seed=1):
    """A named signal of n samples."""
    if name[:4] == "ext:":
        # the extremes of an integer type, with values which neither fit a narrower nor a signed type of the same width
        m = numpy.iinfo(name[4:])
        a, b = max(m.min, -(2 ** 52)), min(m.max, 2 ** 52 - 1)
        v = [b, 0, b // 2 + 2, a, 1, b - 1, a + 3 if a else 3, b // 3]
        return numpy.array([v[(i + seed) % 8] for i in range(n)], name[4:])
    if name == "bilist":
        return [((i * i + seed) % 5 - 2) * 2 ** 40 + i for i in range(n)]
    if name in ("pico", "peta"):
        return generic(seed, n) * (1e-200 if name == "pico" else 1e200)
    if name == "gen":
        return generic(seed, n)
    if name == "cgen":
        return generic(seed, n, "complex")
    if name == "c0":
        return generic(seed, n) + 0j
    if name == "cmix":
        v = generic(seed, n, "complex")
        v[: n // 2] = v[: n // 2].real
        return v
    if name == "int":
        return numpy.array([int(10 * v) for v in generic(seed, n)])
    if name == "list":
        return [float(v) for v in generic(seed, n)]
    if name == "ilist":
        return [int(10 * v) for v in generic(seed, n)]
    if name == "clist":
        return [complex(v) for v in generic(seed, n, "complex")]
    if name == "f32":
        return numpy.array([int(v * 64) / 64.0 for v in generic(seed, n)], numpy.float32)
    if name == "c64":
        v = generic(seed, n, "complex")
        return (numpy.round(v.real * 64) / 64 + 1j * numpy.round(v.imag * 64) / 64).astype(numpy.complex64)
    if name == "i8":
        return numpy.array([int(110 * v) for v in generic(seed, n)], numpy.int8)
    if name == "u8":
        return numpy.array([int(110 * abs(v)) for v in generic(seed, n)], numpy.uint8)
    if name == "imp":
        return numpy.array([1.0] + [0.0] * (n - 1))
    if name == "step":
        return numpy.ones(n)
    if name == "alt":
        return numpy.array([(-1.0) ** i for i in range(n)])
    if name == "late":
        return numpy.array([0.0] * (n // 2) + [2.0] * (n - n // 2))
    if name == "zero":
        return numpy.zeros(n)
    if name == "big":
        return generic(seed, n) * 1e9
    if name == "tiny":
        return generic(seed, n) * 1e-9
    if name == "nano":
        return generic(seed, n) * 1e-24
    if name == "mega":
        return generic(seed, n) * 1e24
    if name == "cnano":
        return generic(seed, n, "complex") * 1e-24
    if name in ("cbig", "ctiny", "cview"):
        return generic(seed, n, "complex") * (1e9 if name == "cbig" else 1e-9) if name != "cview" else generic(seed, 2 * n, "complex")[::-2]
    if name == "cthin":
        # an imaginary part which is small, and still has to survive (compared to 1e-12)
        return generic(seed, n) + 1e-9j * generic(seed + 1, n)
    if name == "fade":
        return generic(seed, n) * 10.0 ** (-2.0 * numpy.arange(n))
    if name == "view":
        v = generic(seed, 2 * n)[::-2]
        v.flags.writeable = False
        return v
    if name == "neg":
        return -abs(generic(seed, n))
    if name == "wide":
        # large magnitudes which cancel, and small ones which have to survive
        v = numpy.array([(2.0 ** 30, -(2.0 ** 30), 0.5, 0.0, -1.0, 2.0 ** 30, 0.25)[i % 7] for i in range(n)])
        return v
    if name == "gaps":
        v = generic(seed, n)
        v[1::3] = 0.0
        return v
    raise KeyError(name)


def cut(x, parts):
    """Consecutive pieces of x, keeping its container type."""
    k = 0
    for p in parts:
        yield x[k:k + p]
        k += p


def scale(*a):
    m = 0.0
    for v in a:
        v = numpy.asarray(v)
        if v.size:
            if v.dtype.kind in "iu":
                v = v.astype(float)
            with numpy.errstate(all="ignore"):
                m = max(m, float(numpy.max(numpy.abs(v))))
    return m if m > 0.0 else 1.0


def same(got, want, what, rtol=1e-9, ref=None, atol=0.0):
    """got equals want, in shape and, up to rounding relative to the scale of ref, in value."""
    g, w = numpy.asarray(got), numpy.asarray(want)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}: {short(g)} expected {short(w)}")
    if not g.size:
        return
    if g.dtype.kind in "iu" or w.dtype.kind in "iu":
        g, w = (v.astype(float) if v.dtype.kind in "iu" else v for v in (g, w))
    try:
        d = numpy.abs(g - w)
    except TypeError:
        raise Violation(f"{what}: {short(g)} expected {short(w)}")
    tol = rtol * scale(w if ref is None else ref) + atol
    bad = ~(d <= tol)
    if bad.any():
        k = int(numpy.argmax(bad.ravel()))
        raise Violation(
            f"{what}: element {numpy.unravel_index(k, w.shape) if w.shape else ()} is {g.ravel()[k]!r}, expected {w.ravel()[k]!r}"
            f" (tolerance {tol:.3g})\n got      {short(g)}\n expected {short(w)}"
        )


def short(v, n=24):
    v = numpy.asarray(v)
    s = numpy.array2string(v.ravel()[:n], precision=12, max_line_width=200, formatter={})
    return s + ("" if v.size <= n else f"... ({v.size})")


def need(cond, what):
    if not cond:
        raise Violation(what)


def flat(n, pairs):
    """Constant signals of n samples, except for at most two positions, with the same mean or not."""
    yield numpy.ones(n)
    for i, j in pairs:
        for d, e in ((0.5, -0.5), (0.25, 0.25)):
            x = numpy.ones(n)
            x[i] += d
            x[j] += e
            yield x


def flats(quick):
    """lengths and pairs of positions for flat: every pair of short signals, a ring of pairs of longer ones"""
    for n in (2, 3, 4, 5, 6, 7, 8, 33) if quick else (2, 3, 4, 5, 6, 7, 8, 17, 33, 40, 65):
        yield n, list(itertools.combinations(range(n), 2))
    for n in (65, 129, 257, 1025):
        k = sorted({0, 1, 2, 3, n // 4, n // 2, n // 2 + 1, n - 3, n - 2, n - 1})
        yield n, list(itertools.combinations(k, 2))


def words(alphabet, n):
    for k in range(1, n + 1):
        yield from itertools.product(alphabet, repeat=k)


def rejects(f, what, kinds=(ValueError,)):
    """f must raise one of the documented kinds."""
    try:
        v = f()
    except kinds:
        return
    except Exception as ex:
        raise Violation(f"{what}: raised {type(ex).__name__} ({ex}), expected {kinds[0].__name__}")
    raise Violation(f"{what}: accepted, expected {kinds[0].__name__}; returned {v!r:.200}")
