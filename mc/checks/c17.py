"""C17: power spectral density against the mean of directly summed frames."""
import itertools
import math

import numpy
from diamondback import PsdTransform, WindowFilter

from mc.core import Out
from mc.util import EXTREME, need, rejects, same, scale, signal

ID, LEVEL = "C17", "model_checking"
RULE = (
    "case = (window length, window): every stride up to twice the window, every surplus length of the bound, several signals, spectrogram and mean; words as frames; tones. "
    "State = (window length, stride, signal length). Nontrivial: at least one bin and one frame."
)
ASSUMPTIONS = ["double precision, relative tolerance 1e-9 of the scale of the squared signal"]
WINDOWS = ("ones", "Hann", "Kaiser", "gen", "cgen", "listw", "intw", "edge", "i8w", "wview")


def cases(tier, seed):
    quick = tier == "quick"
    for n in list(range(1, 13)) + [16, 17, 31, 32] if quick else list(range(1, 34)) + [48, 63, 64, 65]:
        for w in WINDOWS:
            yield dict(k="psd", n=n, w=w, seed=seed, extra=(3 * n + 2) if n < 13 else 2 * n + 2, top=(2 * n + 2), thin=1 if n < 13 else (5 if quick else 3))
        if n > 1:
            yield dict(k="tone", n=n)
    for n in range(2, 6):
        yield dict(k="words", n=n, m=7 if quick else 9)
    yield dict(k="long", seed=seed)
    yield dict(k="reject")


def window(name, n, seed):
    v = numpy.abs(signal("gen", n, seed + 50 + n))
    if name == "ones":
        return numpy.ones(n)
    if name in ("Hann", "Kaiser"):
        return WindowFilter(name, n - 1, False).b
    if name == "gen":
        return signal("gen", n, seed + 60)
    if name == "cgen":
        return signal("cgen", n, seed + 60)
    if name == "listw":
        return [float(u) for u in v]
    if name == "i8w":
        return numpy.array([int(100 * u) + 1 for u in v], numpy.int8)
    if name == "intw":
        return numpy.arange(1, n + 1)
    if name == "wview":
        return numpy.repeat(v, 3)[::-3]
    if n > 2:
        v[0] = v[-1] = 0.0
    return v


def frames(x, b, index):
    x, b = numpy.asarray(x), numpy.asarray(b) * 1.0
    n = len(b)
    e = numpy.exp(-2j * math.pi * (numpy.outer(numpy.arange(n // 2), numpy.arange(n)) % n) / n)
    rows = []
    start = 0
    while start + n <= len(x):
        rows.append(numpy.abs((e * (x[start:start + n] * b)).sum(1) / n) ** 2)
        start += index
    return numpy.array(rows).reshape(len(rows), n // 2)


def check(out, x, b, index, what):
    want = frames(x, b, index)
    n = len(b)
    m = (scale(numpy.asarray(b)) * scale(x)) ** 2
    s, f = PsdTransform.transform(x, b, index, True)
    same(s, want, f"{what}: spectrogram", ref=m)
    y, f2 = PsdTransform.transform(x, b, index)
    same(y, want.mean(0), f"{what}: mean", ref=m)
    need(numpy.isrealobj(y) and numpy.isrealobj(s), f"{what}: not real")
    for g in (f, f2):
        same(g, 2.0 * numpy.arange(n // 2) / n, f"{what}: frequencies", ref=1.0)
    out.transitions += 2
    out.traces += 1
    out.state(n, index, len(x))
    return y


def run_case(spec):
    out = Out()
    k = spec["k"]
    if k == "psd":
        n, w = spec["n"], spec["w"]
        b = window(w, n, spec["seed"])
        if not (numpy.abs(numpy.asarray(b)) > 1e-8).any():
            rejects(lambda: PsdTransform.transform(numpy.ones(n), b, 1), f"window {spec}")
            out.trivial = True
            out.outcome = spec
            return out
        for extra in range(0, spec["extra"] + 1, spec["thin"]):
            for index in range(1, spec["top"] + 1, spec["thin"]):
                name = ("gen", "cgen", "list", "ilist", "clist", "int", "imp", "big", "tiny", "alt", "late", "c0", "i8", "u8", "c64", "f32", "nano", "mega", "cnano", "view", "cview", "cthin", *EXTREME[:9])[(extra + 7 * index) % 30]
                x = signal(name, n + extra, spec["seed"] + extra)
                y = check(out, x, b, index, f"window {w} of {n}, stride {index}, signal {name} of {n + extra}")
                if name == "gen" and n > 1:
                    for g in (3.0, -2.0, 0.5j):
                        same(PsdTransform.transform(g * x, b, index)[0], abs(g) ** 2 * y, f"window {w} of {n}, stride {index}: scaling by {g}", ref=16 * scale(numpy.asarray(b)) ** 2)
                        out.transitions += 1
    elif k == "tone":
        n = spec["n"]
        for q in range(n // 2):
            for index in (1, 2, n):
                y, f = PsdTransform.transform(2.0 * numpy.exp(2j * math.pi * q * numpy.arange(3 * n) / n), numpy.ones(n), index)
                j = int(numpy.argmax(y))
                same(f[j], 2.0 * q / n, f"label of the tone {q} of {n}", ref=1.0)
                same(y[j], 4.0, f"power of the tone {q} of {n}")
                out.transitions += 1
                out.state(n, q, index)
        out.traces += 1
    elif k == "words":
        n = spec["n"]
        for w in itertools.product((-1.0, 0.0, 2.0), repeat=spec["m"]):
            x = numpy.array(w)
            check(out, x, numpy.ones(n), 1 + int(2 * sum(map(abs, w))) % (n + 1), f"signal {w} window of {n} ones")
    elif k == "long":
        for n, m, index in ((128, 4096, 64), (64, 1000, 1), (100, 1501, 33), (129, 2000, 128), (255, 5000, 300), (16, 33000, 7), (16, 70001, 16), (33, 140000, 50), (4, 9000, 1), (5, 70000, 3), (512, 5000, 1000), (1000, 3100, 500), (1024, 5000, 1024), (1023, 2500, 700)):
            for w in WINDOWS:
                check(out, signal("gen", m, spec["seed"]), window(w, n, spec["seed"]), index, f"window {w} of {n}, stride {index}, signal of {m}")
    else:
        for x, b in (([], [1.0, 1.0]), ([1.0], [1.0, 1.0]), (numpy.ones(3), numpy.zeros(3)), (numpy.ones(3), []), (numpy.ones(3), numpy.ones(4))):
            for s in (False, True):
                rejects(lambda: PsdTransform.transform(x, b, 1, s), f"signal {x} window {b}")
                out.transitions += 1
        out.traces += 1
        out.state("reject")
    out.outcome = spec
    return out
