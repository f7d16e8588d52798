"""C16: Fourier transform against the direct sum, labels by tones, and inverse of forward."""
import cmath
import itertools
import math

import numpy
from diamondback import FourierTransform, WindowFilter

from mc.core import Out
from mc.util import EXTREME, need, rejects, same, scale, signal, words

ID, LEVEL = "C16", "model_checking"
RULE = (
    "case = (window length, window): every signal of the alphabet and every surplus length; every word over a ternary alphabet as signal; every pattern of zero window values of the bound; every tone of the grid. "
    "State = (window, length, signal, bin). Nontrivial: the window is not zero."
)
ASSUMPTIONS = ["a window value counts as zero below 1e-8 in magnitude", "double precision, relative tolerance 1e-9"]
WINDOWS = ("ones", "Hann", "Hamming", "Blackman", "Kaiser", "gen", "neg", "cgen", "listw", "intw", "lead", "tail", "both", "ramp", "small", "int0", "i8w", "large", "fall", "wview", "cliff", "steep")
SIGNALS = ("gen", "cgen", "c0", "cmix", "int", "list", "ilist", "clist", "imp", "late", "i8", "u8", "c64", "f32", "alt", "step", "big", "tiny", "gaps", "nano", "mega", "cnano", "cthin", "view", "cview", *EXTREME)


def cases(tier, seed):
    quick = tier == "quick"
    for n in list(range(1, 34)) + [47, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 509, 512] if quick else list(range(1, 140)) + [255, 256, 257, 500, 501]:
        for w in WINDOWS:
            yield dict(k="dft", n=n, w=w, seed=seed)
        yield dict(k="tone", n=n)
    for n in range(1, 8 if quick else 10):
        yield dict(k="words", n=n)
    for n in range(1, 8 if quick else 11):
        yield dict(k="zeros", n=n, seed=seed)
    for n in (512, 1000, 1023, 1024, 1025, 2039, 2048, 4096, 4097, 8192, 10007, 16384, 65536, 65537, 100000):
        yield dict(k="huge", n=n, seed=seed)
    yield dict(k="reject")


def window(name, n, seed):
    if name in ("Hann", "Hamming", "Blackman", "Kaiser"):
        return WindowFilter(name, n - 1, False).b
    v = numpy.abs(signal("gen", n, seed + 50 + n))
    if name == "ones":
        return numpy.ones(n)
    if name == "gen":
        return v
    if name == "neg":
        return signal("gen", n, seed + 60 + n)
    if name == "cgen":
        return signal("cgen", n, seed + 70 + n)
    if name == "listw":
        return [float(u) for u in v]
    if name == "intw":
        return numpy.arange(1, n + 1)
    if name == "int0":
        return numpy.arange(0, n)
    if name == "ramp":
        return numpy.arange(n) / n
    if name == "i8w":
        return numpy.array([int(100 * u) + 1 for u in v], numpy.int8)
    if name == "fall":
        # each value is a tenth of the one before, down to one which still counts
        return 10.0 ** -(numpy.arange(n) % 7)
    if name in ("cliff", "steep"):
        # values which still count, next to far larger ones: the last, or every other
        v = 1.0 + v
        v[-1 if name == "cliff" else slice(1, None, 2)] *= 1e-6
        return v
    if name == "wview":
        return numpy.repeat(v, 3)[::-3]
    if name == "large":
        return v * 1e12
    if name == "small":
        return v * 1e-4
    if name in ("lead", "both"):
        v[0] = 0.0
    if name in ("tail", "both"):
        v[-1] = 0.0
    return v


def dft(v):
    """(1/N) sum v[n] e^(-2 pi j k n / N) in order of increasing frequency, and the frequencies over the Nyquist limit."""
    n = len(v)
    ks = range(-(n // 2), n - n // 2)
    e = numpy.exp(-2j * math.pi * (numpy.outer(numpy.arange(n), numpy.arange(n)) % n) / n)
    return numpy.array([(e[k % n] * v).sum() / n for k in ks]), numpy.array([2.0 * k / n for k in ks])


def check(out, x, b, what, labels=True):
    """one forward transform and its inverse"""
    n = len(b)
    v = numpy.asarray(b) * 1.0
    y, f = FourierTransform.transform(x, b)
    want, freq = dft(v * numpy.asarray(x)[:n])
    m = max(scale(v) * scale(numpy.asarray(x)[:n]), 1e-300)
    # a product of a narrow integer window and a single precision signal is of single precision
    rtol = 1e-5 if numpy.result_type(numpy.asarray(b), numpy.asarray(x)) in (numpy.float32, numpy.complex64) else 1e-9
    same(y, want, f"{what}: transform", ref=m, rtol=rtol)
    same(f, freq, f"{what}: frequencies", ref=1.0)
    z, i = FourierTransform.transform(y, b, inverse=True)
    nz = numpy.abs(v) > 1e-8
    same(z[nz], numpy.asarray(x)[:n][nz], f"{what}: inverse of transform", ref=max(m / numpy.abs(v[nz]).min(), scale(numpy.asarray(x)[:n])) if nz.any() else 1.0, rtol=rtol)
    need(z.shape == (n,), f"{what}: inverse of shape {z.shape}")
    if numpy.isrealobj(v) and numpy.iscomplexobj(x) and 0.0 < scale(numpy.imag(x)) < 1e-6 * scale(x):
        # an imaginary part which is small compared to the real one
        same(numpy.imag(z)[nz], numpy.imag(x)[:n][nz], f"{what}: small imaginary part of inverse of transform", rtol=1e-4, ref=scale(numpy.imag(x)) * max(1.0, scale(v) / numpy.abs(v[nz]).min()) if nz.any() else 1.0)
    same(i, numpy.arange(n), f"{what}: indices of inverse", ref=1.0)
    out.transitions += 2
    out.traces += 1
    return y


def run_case(spec):
    out = Out()
    k = spec["k"]
    if k == "dft":
        n = spec["n"]
        b = window(spec["w"], n, spec["seed"])
        if not (numpy.abs(numpy.asarray(b)) > 1e-8).any():
            rejects(lambda: FourierTransform.transform(numpy.ones(n), b), f"window {spec}")
            out.trivial = True
            out.outcome = spec
            return out
        for name in SIGNALS:
            for extra in (0, 1, 2, 7):
                x = signal(name, n + extra, spec["seed"])
                y = check(out, x, b, f"window {spec['w']} of {n}, signal {name} of {n + extra}")
                out.state(spec["w"], n, name, extra)
            if name == "gen":
                # the surplus of the signal is not used; linear in the signal
                x2 = signal("cgen", n, spec["seed"] + 9)
                y2 = FourierTransform.transform(x2, b)[0]
                y3 = FourierTransform.transform(x[:n] * 2.0 - 1.5j * x2, b)[0]
                same(y3, 2.0 * y - 1.5j * y2, f"window {spec['w']} of {n}: linearity", ref=4 * scale(numpy.asarray(b)))
                for again in range(2):
                    same(FourierTransform.transform(x, b)[0], y, f"window {spec['w']} of {n}: repeated", rtol=0.0)
    elif k == "tone":
        n = spec["n"]
        for q in range(-(n // 2), n - n // 2):
            x = numpy.exp(2j * math.pi * q * numpy.arange(n) / n)
            y, f = FourierTransform.transform(x, numpy.ones(n))
            j = int(numpy.argmax(numpy.abs(y)))
            same(f[j], 2.0 * q / n, f"label of the tone {q} of {n}", ref=1.0)
            same(y[j], 1.0, f"value of the tone {q} of {n}")
            need(-1.0 <= f.min() and f.max() < 1.0 and (numpy.diff(f) > 0).all(), f"labels of length {n}: {f}")
            out.state(n, q)
            out.transitions += 1
        out.traces += 1
    elif k == "huge":
        # long transforms: at some frequencies, and all of them by the inverse
        n = spec["n"]
        for name, w in itertools.product(("gen", "cgen", "int"), ("Hann", "ones", "gen")):
            x, b = signal(name, n + 3, spec["seed"]), window(w, n, spec["seed"])
            y, f = FourierTransform.transform(x, b)
            need(numpy.shape(y) == (n,), f"{name} of {n}: shape {numpy.shape(y)}")
            same(f, 2.0 * (numpy.arange(n) - n // 2) / n, f"{name} of {n}: frequencies", ref=1.0)
            m = scale(b) * scale(x)
            for k in (-(n // 2), -(n // 2) + 1, -7, -1, 0, 1, 2, n // 3, n - n // 2 - 1):
                want = (numpy.asarray(x)[:n] * b * numpy.exp(-2j * math.pi * (k * numpy.arange(n) % n) / n)).sum() / n
                same(y[k + n // 2], want, f"{name} of {n}, window {w}: frequency {2.0 * k / n}", ref=m)
                out.state(n, name, w, k)
            z, i = FourierTransform.transform(y, b, inverse=True)
            nz = numpy.abs(b) > 1e-8
            same(z[nz], numpy.asarray(x)[:n][nz], f"{name} of {n}, window {w}: inverse of transform", ref=m / numpy.abs(b[nz]).min())
            out.transitions += 2
            out.traces += 1
    elif k == "words":
        for w in itertools.product((-1.0, 0.0, 2.0), repeat=spec["n"]):
            for b in (numpy.ones(spec["n"]), numpy.arange(spec["n"]) + 1.0):
                check(out, numpy.array(w), b, f"signal {w} window {b}")
            out.state(w)
    elif k == "zeros":
        n = spec["n"]
        for mask in itertools.product((0, 1), repeat=n):
            if not any(mask):
                continue
            for name in ("gen", "cgen"):
                x = signal(name, n + 1, spec["seed"])
                b = numpy.abs(signal("gen", n, spec["seed"] + 3)) * mask
                check(out, x, b, f"window {list(b)} of {name}")
            out.state(mask)
    else:
        for x, b in (([], [1.0]), ([1.0], [1.0, 1.0]), (numpy.ones(3), numpy.zeros(3)), (numpy.ones(3), numpy.ones(4)), ([1.0, 2.0], [])):
            for inverse in (False, True):
                rejects(lambda: FourierTransform.transform(x, b, inverse), f"signal {x} window {b}")
                out.transitions += 1
        out.traces += 1
        out.state("reject")
    out.outcome = spec
    return out
