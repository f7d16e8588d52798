"""C30: every parameter at, just inside and just outside every documented bound, at every point of short histories."""
import itertools
import math
import warnings

import numpy
from diamondback import (
    ComplexBandpassFilter,
    ComplexExponentialFilter,
    ComplexFrequencyFilter,
    ComplexTransform,
    DerivativeFilter,
    DiversityModel,
    FirFilter,
    FourierTransform,
    GaussianMixtureModel,
    GaussianModel,
    GoertzelFilter,
    IirFilter,
    IntegralFilter,
    PidFilter,
    PolynomialRateFilter,
    PolyphaseRateFilter,
    PsdTransform,
    RankFilter,
    WaveletTransform,
    WindowFilter,
    ZTransform,
)

from mc import zoo
from mc.core import Out, Violation
from mc.util import generic, need, rejects

ID, LEVEL = "C30", "model_checking"
RULE = (
    "case = (operation, parameter values): construction or static operation with every parameter outside its range is rejected and every parameter inside, at its bound or in any spelling is accepted; or "
    "(class, history): after the history every rejected operation of the class is performed once and twice, and observable state and every later output are compared bit for bit with those of a twin which never saw it. "
    "State = (class, history, rejected operation). Nontrivial: all."
)
ASSUMPTIONS = [
    "values which are not numbers (NaN) and values of other types are not parameters",
    "a polyphase rate of zero and a PID limit of zero, of which the documentation and the messages differ, are not decided",
    "an interval documented half open at a bound at which the message of the rejection is closed is not decided at that bound",
]
EPS = 2.0 ** -52
UP = lambda v: v + max(abs(v), 1.0) * 2 * EPS
DOWN = lambda v: v - max(abs(v), 1.0) * 2 * EPS
INF = math.inf
BELOW0 = (-5e-324, -EPS, -0.1, -1.0, -1e9, -INF)
X = generic(1, 8)


def spell(s):
    return sorted({s, s.upper(), s.lower(), s.swapcase(), s.title()})


def bad_styles(styles):
    return ["", " ", "None", "x" + styles[0], styles[0][:-1], styles[0] + " ", "Kaisser", styles[0] + styles[0], "Style"]


def outside(lo, hi, closed_lo=True, closed_hi=True):
    v = [-INF, -1e9, lo - 1.0, lo - 0.01, DOWN(lo), UP(hi), hi + 0.01, hi + 1.0, 1e9, INF]
    return v + ([] if closed_lo else [lo]) + ([] if closed_hi else [hi])


def inside(lo, hi):
    return [UP(lo), lo + 0.01 * (hi - lo), 0.5 * (lo + hi), hi - 0.01 * (hi - lo), DOWN(hi)]


STYLES = {"FirFilter": ("Blackman", "Hamming", "Hann", "Kaiser"), "IirFilter": ("Bessel", "Butterworth", "Chebyshev"), "WindowFilter": ("Blackman", "Hamming", "Hann", "Kaiser"), "DiversityModel": ("Chebyshev", "Euclidean", "Geometric", "Manhattan")}
COUNTS = (0, -1, -2, -1000)


def constructions():
    """(name, function, must reject) of every parameter, the others being inside"""
    no = lambda name, f: (name, f, ValueError)
    yes = lambda name, f: (name, f, None)
    for cls, order in ((FirFilter, 4), (IirFilter, 2)):
        n = cls.__name__
        for st in STYLES[n]:
            for w in spell(st):
                yield yes(f"{n} style {w!r}", lambda: cls(style=w, frequency=0.3, order=order))
        for w in bad_styles(STYLES[n]):
            yield no(f"{n} style {w!r}", lambda: cls(style=w, frequency=0.3, order=order))
            yield no(f"{n} style {w!r}, others wrong too", lambda: cls(style=w, frequency=1.5, order=-1))
        for st in STYLES[n]:
            for f in outside(0.0, 1.0, False, False):
                yield no(f"{n} {st} frequency {f!r}", lambda: cls(style=st, frequency=f, order=order))
                yield no(f"{n} {st} complement frequency {f!r}", lambda: cls(style=st, frequency=f, order=order, complement=True))
            for f in (0.05, 0.5, 0.95):
                yield yes(f"{n} {st} frequency {f!r}", lambda: cls(style=st, frequency=f, order=order))
            for k in COUNTS:
                yield no(f"{n} {st} order {k}", lambda: cls(style=st, frequency=0.3, order=k))
                yield no(f"{n} {st} count {k}", lambda: cls(style=st, frequency=0.3, order=order, count=k))
            for k in (1, 2, 5):
                if st not in ("Blackman", "Hann") or k > 2:
                    yield yes(f"{n} {st} order {k}", lambda: cls(style=st, frequency=0.3, order=k))
                yield yes(f"{n} {st} count {k}", lambda: cls(style=st, frequency=0.3, order=order, count=k))
        yield no(f"{n} without parameters", lambda: cls())
        yield no(f"{n} without style", lambda: cls(frequency=0.3, order=order))
        yield no(f"{n} without frequency", lambda: cls(style=STYLES[n][0], order=order))
        yield no(f"{n} empty b", lambda: cls(b=[]))
    for b in ([0.0], [1.0], [0.0, 0.0], [1, 2], (1.0, 2.0), numpy.array([1.0]), [1j], numpy.ones(100)):
        yield yes(f"FirFilter b {b!r:.40}", lambda: FirFilter(b=b))
        yield yes(f"FirFilter b {b!r:.40} with a style", lambda: FirFilter(style="Nope", frequency=7.0, order=-1, b=b))
        for s in ([], [1.0], [1.0] * 3):
            yield yes(f"FirFilter b {b!r:.40} s {s}", lambda: FirFilter(b=b, s=s))
    for a in ([1.0], [1.0, 0.5], [-1.0, 0.5], [1e-9, 0.5], [0.5j, 0.5], numpy.array([1, 2]), (1, 2, 3)):
        yield no(f"IirFilter a {a!r}", lambda: IirFilter(a=a, b=[1.0, 0.5]))
        yield no(f"IirFilter a {a!r}, long b", lambda: IirFilter(a=a, b=[1.0, 0.5, 1.0, 2.0]))
        yield no(f"IirFilter a {a!r}, s", lambda: IirFilter(a=a, b=[1.0], s=[1.0] * 5))
    for a in ([0.0], [0.0, 0.5], [0, 1], numpy.array([0.0, 0.5]), (0, 0.5), [-0.0, 0.5], [0j, 0.5j]):
        for b in ([1.0], [1.0, 0.5, 0.25], numpy.array([2, 1]), (1, 2)):
            yield yes(f"IirFilter a {a!r} b {b!r}", lambda: IirFilter(a=a, b=b))
    for o in range(0, 5):
        for i in range(-3, o + 4):
            yield (f"RankFilter index {i} order {o}", lambda: RankFilter(index=i, order=o), None if 0 <= i <= o else ValueError)
    for o in (-1, -2, -5):
        for i in (-6, -5, -2, -1, 0, 1):
            yield no(f"RankFilter index {i} order {o}", lambda: RankFilter(index=i, order=o))
    for b in ([], [1.0], [1.0, 2.0], [1.0, 2.0, 3.0, 4.0], numpy.ones(2), (1, 2), numpy.ones(0)):
        yield no(f"PidFilter b {b!r}", lambda: PidFilter(b=b))
    for b in ([1.0, 2.0, 3.0], (1, 2, 3), numpy.zeros(3)):
        yield yes(f"PidFilter b {b!r}", lambda: PidFilter(b=b))
    for b in ([], [0.0], [0.0, 0.0], numpy.zeros(4), (0, 0), [0j]):
        for f in (-1.0, 0.0, 0.5, 1.0):
            yield no(f"GoertzelFilter b {b!r}", lambda: GoertzelFilter(b=b, frequency=f))
    for f in outside(-1.0, 1.0):
        yield no(f"GoertzelFilter frequency {f!r}", lambda: GoertzelFilter(b=[1.0, 2.0], frequency=f))
        yield no(f"ComplexBandpassFilter frequency {f!r}", lambda: ComplexBandpassFilter(frequency=f, rate=0.1))
        yield no(f"ComplexFrequencyFilter frequency {f!r}", lambda: ComplexFrequencyFilter(frequency=f, rate=0.1))
        yield no(f"ComplexExponentialFilter phase {f!r}", lambda: ComplexExponentialFilter(phase=f))
    for f in inside(-1.0, 1.0) + [-1.0, 1.0, 0.0, -0.0, 1, -1, 0]:
        yield yes(f"GoertzelFilter frequency {f!r}", lambda: GoertzelFilter(b=[1.0, 2.0], frequency=f))
        yield yes(f"ComplexBandpassFilter frequency {f!r}", lambda: ComplexBandpassFilter(frequency=f, rate=0.1))
        yield yes(f"ComplexFrequencyFilter frequency {f!r}", lambda: ComplexFrequencyFilter(frequency=f, rate=0.1))
        yield yes(f"ComplexExponentialFilter phase {f!r}", lambda: ComplexExponentialFilter(phase=f))
    for cls in (ComplexBandpassFilter, ComplexFrequencyFilter):
        for r in outside(0.0, 1.0) + list(BELOW0):
            yield no(f"{cls.__name__} rate {r!r}", lambda: cls(frequency=0.2, rate=r))
        for r in inside(0.0, 1.0) + [0.0, 1.0, 0, 1]:
            yield yes(f"{cls.__name__} rate {r!r}", lambda: cls(frequency=0.2, rate=r))
    table = {1: (1, 2, 4), 2: (2, 4, 6, 8), 3: (4, 6, 8)}
    for d in range(-2, 8):
        for o in range(-2, 13):
            ok = o in table.get(d, ())
            yield (f"DerivativeFilter derivative {d} order {o}", lambda: DerivativeFilter(derivative=d, order=o), None if ok else ValueError)
    for o in range(-5, 12):
        yield (f"IntegralFilter order {o}", lambda: IntegralFilter(order=o), None if 0 <= o <= 4 else ValueError)
    for r in BELOW0:
        yield no(f"PolynomialRateFilter rate {r!r}", lambda: PolynomialRateFilter(rate=r))
        yield no(f"PolyphaseRateFilter rate {r!r}", lambda: PolyphaseRateFilter(rate=r))
    for r in (0.0, 0, 5e-324, 0.1, 1.0, 1, 7.3, 1e6):
        yield yes(f"PolynomialRateFilter rate {r!r}", lambda: PolynomialRateFilter(rate=r))
    for r in (UP(256.0), 256.001, 257, 1e9, INF):
        yield no(f"PolyphaseRateFilter rate {r!r}", lambda: PolyphaseRateFilter(rate=r))
    for r in (1e-9, 0.1, 1, 255.9, DOWN(256.0), 256.0, 256):
        yield yes(f"PolyphaseRateFilter rate {r!r}", lambda: PolyphaseRateFilter(rate=r))
    for k in COUNTS:
        yield no(f"PolynomialRateFilter order {k}", lambda: PolynomialRateFilter(rate=0.5, order=k))
        yield no(f"GaussianMixtureModel order {k}", lambda: GaussianMixtureModel(order=k))
        yield no(f"GaussianMixtureModel index {k}", lambda: GaussianMixtureModel(index=k))
        if k:
            yield no(f"DiversityModel order {k}", lambda: DiversityModel("Euclidean", k))
            yield no(f"WindowFilter order {k}", lambda: WindowFilter("Hann", k))
    for k in (1, 2, 3, 5):
        yield yes(f"PolynomialRateFilter order {k}", lambda: PolynomialRateFilter(rate=0.5, order=k))
        yield yes(f"GaussianMixtureModel order {k}", lambda: GaussianMixtureModel(order=k))
        yield yes(f"GaussianMixtureModel index {k}", lambda: GaussianMixtureModel(index=k))
    for k in (0, 1, 2, 9):
        yield yes(f"DiversityModel order {k}", lambda: DiversityModel("Euclidean", k))
        if k != 1:
            yield yes(f"WindowFilter order {k}", lambda: WindowFilter("Hann", k))
    for n, make in (("WindowFilter", WindowFilter), ("DiversityModel", DiversityModel)):
        for st in STYLES[n]:
            for w in spell(st):
                yield yes(f"{n} style {w!r}", lambda: make(w, 4))
        for w in bad_styles(STYLES[n]):
            yield no(f"{n} style {w!r}", lambda: make(w, 4))
    for r in BELOW0:
        yield no(f"GaussianModel regularize {r!r}", lambda: GaussianModel(regularize=r))
        yield no(f"GaussianMixtureModel regularize {r!r}", lambda: GaussianMixtureModel(regularize=r))
    for r in (0.0, 0, 5e-324, 0.1, 1, 1e6):
        yield yes(f"GaussianModel regularize {r!r}", lambda: GaussianModel(regularize=r))
        yield yes(f"GaussianMixtureModel regularize {r!r}", lambda: GaussianMixtureModel(regularize=r))
    known = {s: tuple(v) for s, v in WaveletTransform.B.items()}
    for st in known:
        for o in range(-3, 65):
            yield (f"WaveletTransform {st} order {o}", lambda: WaveletTransform(st, o), None if o in known[st] else ValueError)
        for w in spell(st):
            yield yes(f"WaveletTransform style {w!r}", lambda: WaveletTransform(w, known[st][0]))
    for w in bad_styles(tuple(known)):
        yield no(f"WaveletTransform style {w!r}", lambda: WaveletTransform(w, 1))


def wavelet_shapes():
    f = WaveletTransform("Haar", 1)
    for inverse in (False, True):
        for count in (-2, -1, 0, 1, 2, 3):
            for rows in range(0, 10):
                for cols in range(0, 10):
                    if not rows or not cols:
                        continue
                    m = 2 ** count if count > 0 else 1
                    ok = count > 0 and (rows == 1 or rows % m == 0) and (cols == 1 or cols % m == 0)
                    yield (f"wavelet transform of {rows} x {cols}, count {count}, inverse {inverse}", lambda: f.transform(numpy.ones((rows, cols)), count, inverse), None if ok else ValueError)
            for n in range(0, 18):
                ok = n > 0 and count > 0 and (n == 1 or n % 2 ** count == 0)
                yield (f"wavelet transform of {n}, count {count}, inverse {inverse}", lambda: f.transform(numpy.ones(n), count, inverse), None if ok else ValueError)
                if n:
                    yield (f"wavelet transform of a list of {n}, count {count}, inverse {inverse}", lambda: f.transform([1.0] * n, count, inverse), None if ok else ValueError)
            yield (f"wavelet transform of three dimensions, count {count}", lambda: f.transform(numpy.ones((4, 4, 4)), count, inverse), ValueError)


def statics():
    no = lambda name, f: (name, f, ValueError)
    yes = lambda name, f: (name, f, None)
    for inverse in (False, True):
        for n in range(0, 8):
            for m in range(0, 8):
                ok = n > 0 and 0 < m <= n
                # the inverse needs a neighbour of a zero edge, which this window has not
                yield (f"Fourier transform of {n} with window of {m}, inverse {inverse}", lambda: FourierTransform.transform(numpy.ones(n), numpy.ones(m), inverse), None if ok else ValueError)
                if n and m:
                    yield (f"Fourier transform of a list of {n} with {m} zeros, inverse {inverse}", lambda: FourierTransform.transform([1.0] * n, [0.0] * m, inverse), ValueError)
                if not inverse:
                    for k in (1, 2, 5, 9):
                        yield (f"PSD of {n} with window of {m}, index {k}", lambda: PsdTransform.transform(numpy.ones(n), numpy.ones(m), k), None if ok and m > 1 else ValueError if not ok else "any")
                        if n and m:
                            yield (f"PSD of {n} with {m} zeros", lambda: PsdTransform.transform([1.0] * n, [0.0] * m, k), ValueError)
    for u, v, f, ok in [
        ([1.0, 1.0], [1.0], 8.0, True), ([1, 1], [1], 8, True), ([], [1.0], 8.0, False), ([1.0, 1.0], [], 8.0, False), ([0.0, 0.0], [1.0], 8.0, False), ([1.0, 1.0], [0.0], 8.0, False), ([0.0], [1.0], 8.0, False),
        ([1.0, 1.0], [0.0, 0.0], 8.0, False), ([1.0, 1.0], [1.0], 0.0, False), ([1.0, 1.0], [1.0], -1e-9, False), ([1.0, 1.0], [1.0], -8.0, False), ([1.0, 1.0], [1.0], 1e-3, True), ([1.0, 1.0], [1.0], 1e6, True),
        ([1.0, 3.0, 2.0], [0.0, 1.0], 8.0, True), ([0.0, 1.0, 3.0, 2.0], [1.0], 8.0, True), ([1.0, 1.0], [1.0], -INF, False),
    ]:
        for bilinear in (True, False):
            for t in (list, numpy.array, tuple):
                yield (f"Z transform of {u}, {v}, frequency {f}, bilinear {bilinear}", lambda: ZTransform.transform(t(u), t(v), f, bilinear), None if ok else ValueError)
    for neutral in (True, False):
        for rows in range(0, 8):
            for cols in range(0, 6):
                ok = rows in (1, 3) and cols > 0
                yield (f"complex transform of {rows} x {cols}", lambda: ComplexTransform.transform(numpy.ones((rows, cols)), neutral), None if ok else ValueError)
        for n in range(0, 6):
            yield (f"complex transform of {n}", lambda: ComplexTransform.transform(numpy.ones(n) * 1j, neutral), None if n else ValueError)
            yield (f"complex transform of a list of {n}", lambda: ComplexTransform.transform([1j] * n, neutral), None if n else ValueError)
        yield no("complex transform of three dimensions", lambda: ComplexTransform.transform(numpy.ones((3, 3, 3)), neutral))
        yield no("complex transform of one of three dimensions", lambda: ComplexTransform.transform(numpy.ones((1, 3, 3)), neutral))


def labels():
    x = generic(1, 12).reshape(6, 2)
    for make in (lambda: GaussianModel(0.2), lambda: GaussianMixtureModel(1, 3, 0.2)):
        n = type(make()).__name__
        for t in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"):
            yield (f"{n} labels of {t}", lambda: make().fit(x, numpy.array([0, 1] * 3).astype(t)), None)
        for t in ("float64", "float32", "complex128", "bool", "U3", "S3", "object", "datetime64[s]", "timedelta64[s]" if False else "float16"):
            yield (f"{n} labels of {t}", lambda: make().fit(x, numpy.array([0, 1] * 3).astype(t)), TypeError)
        for k in (0, 1, 5, 7, 12):
            yield (f"{n} with {k} labels of 6 samples", lambda: make().fit(x, numpy.zeros(k, int)), ValueError)
        for shape in ((0,), (6,), (0, 2), (6, 0), (0, 0), (6, 2, 1), ()):
            yield (f"{n} fit of shape {shape}", lambda: make().fit(numpy.ones(shape), numpy.zeros(shape[0] if shape else 0, int)), ValueError)
        yield (f"{n} prediction before a fit", lambda: make().predict(x), ValueError)
        m = make()
        m.fit(x, numpy.array([0, 1] * 3))
        for shape in ((0,), (2,), (0, 2), (3, 0), (3, 1), (3, 3), (3, 2, 1), (1, 3, 2), ()):
            yield (f"{n} prediction of shape {shape}", lambda: m.predict(numpy.ones(shape)), ValueError)
        for rows in (1, 2, 9):
            yield (f"{n} prediction of {rows} rows", lambda: m.predict(numpy.ones((rows, 2))), None)
    for shape in ((0,), (2,), (0, 2), (3, 0), (3, 2, 1), ()):
        if shape != ():
            yield (f"DiversityModel fit of shape {shape}", lambda: DiversityModel("Euclidean", 1).fit(numpy.ones(shape)), ValueError)
    for rows, cols in itertools.product((1, 2, 5), (1, 2, 3)):
        yield (f"DiversityModel fit of {rows} x {cols}", lambda: DiversityModel("Euclidean", 1).fit(numpy.ones((rows, cols))), None)
    for n in range(0, 8):
        for k in range(0, 10):
            f = WindowFilter("Hamming", n)
            yield (f"WindowFilter order {n} of {k} samples", lambda: f.filter(numpy.ones(k)), None if k == n + 1 else ValueError)
            yield (f"WindowFilter order {n} of a list of {k}", lambda: f.filter([1.0] * k), None if k == n + 1 else ValueError)
            if k:
                yield (f"WindowFilter order {n} of {k} rows", lambda: f.filter(numpy.ones((n + 1, k))), ValueError)
                yield (f"WindowFilter order {n} of {k} columns", lambda: f.filter(numpy.ones((k, n + 1))), ValueError)


SETS = {"constructions": constructions, "wavelet_shapes": wavelet_shapes, "statics": statics, "labels": labels}

# rejected operations at a point of a history


def setbad(name, *values):
    return [(f"{name} = {v!r}", (lambda o, v=v: setattr(o, name, v)), ValueError) for v in values]


def usebad(name, *args):
    return [(f"{name}{a!r}"[:60], (lambda o, a=a: getattr(o, name)(*a)), ValueError) for a in args]


EMPTY = usebad("filter", (numpy.zeros(0),), ([],), ((),))
RESET = usebad("reset", ([1.0],), (numpy.ones(1),), (numpy.ones(2),), ((1.0, 2.0),), (None,))
LENGTHS = usebad("response", (0,), (-1,), (8, 0), (8, -1)) + usebad("delay", (0,), (-1,), (8, 0), (8, -1))
FIR_BAD = EMPTY + RESET + LENGTHS
FREQ = setbad("frequency", -1.0000001, 1.0000001, 2.0, -INF, INF, UP(1.0), DOWN(-1.0))
RATE1 = setbad("rate", -1e-9, -5e-324, 1.0000001, UP(1.0), -INF, INF)
GX = generic(3, 8).reshape(4, 2)
SINGULAR = numpy.ones((4, 2))
MODEL_BAD = (
    usebad("fit", (numpy.ones(4), numpy.zeros(4, int)), (numpy.ones((4, 2, 1)), numpy.zeros(4, int)), (numpy.ones((0, 2)), numpy.zeros(0, int)), (GX, numpy.zeros(3, int)), (GX[:, :0], numpy.zeros(4, int)))
    + [("fit of real labels", lambda o: o.fit(GX, numpy.zeros(4)), TypeError), ("fit of text labels", lambda o: o.fit(GX, numpy.array(list("abca"))), TypeError), ("fit of bool labels", lambda o: o.fit(GX, numpy.zeros(4, bool)), TypeError)]
    + usebad("predict", (numpy.ones(2),), (numpy.ones((3, 3)),), (numpy.ones((0, 2)),), (numpy.ones((2, 2, 2)),), (numpy.ones((3, 1)),))
    + setbad("regularize", -5e-324, -0.1, -INF)
)
W8 = numpy.ones(6)
REJECTED = {
    "FirFilter": FIR_BAD,
    "FirFilter complex": FIR_BAD,
    "IirFilter": FIR_BAD,
    "IirFilter explicit": FIR_BAD,
    "ComplexBandpassFilter": EMPTY + FREQ + RATE1,
    "ComplexExponentialFilter": EMPTY + setbad("phase", -1.0000001, 1.0000001, UP(1.0), DOWN(-1.0), INF) + usebad("filter", ([0.5, 1.0000001],), ([0.5, -1.5, 0.25],), (numpy.array([0.5, 1j]),), ([0.5] * 5 + [2.0],), (numpy.array([0.5, UP(1.0)]),)),
    "ComplexFrequencyFilter": EMPTY + FREQ + RATE1 + RESET,
    "DerivativeFilter": FIR_BAD,
    "GoertzelFilter": EMPTY + FREQ,
    "IntegralFilter": FIR_BAD,
    "PidFilter": EMPTY + RESET + setbad("limit", -5e-324, -0.1, -INF),
    "PolynomialRateFilter": EMPTY + usebad("filter", ([1.0],), (numpy.ones(1),), (numpy.ones((2, 2)),)) + setbad("rate", -5e-324, -0.5, -INF) + setbad("order", 0, -1, -7),
    "PolyphaseRateFilter": EMPTY + RESET + setbad("rate", -5e-324, -0.5, 256.0001, UP(256.0), 257, INF),
    "RankFilter": EMPTY + RESET + setbad("index", -1, 4, 5, 100, -100),
    "WindowFilter": EMPTY + usebad("filter", (numpy.ones(5),), (numpy.ones(7),), (numpy.ones((6, 1)),), (numpy.ones((6, 6)),), (numpy.ones((1, 6)),)),
    "WaveletTransform": usebad("transform", (numpy.ones(8), 0), (numpy.ones(8), -1), (numpy.ones(7), 1), (numpy.ones((4, 6)), 2), (numpy.ones((6, 4)), 2), (numpy.zeros(0), 1), (numpy.ones((2, 2, 2)), 1), (numpy.ones(6), 2, True), (numpy.ones(8), 4)),
    "DiversityModel": usebad("fit", (numpy.ones(2),), (numpy.ones((0, 2)),), (numpy.ones((2, 0)),), (numpy.ones((2, 2, 2)),)),
    "GaussianModel": MODEL_BAD,
    "GaussianMixtureModel": MODEL_BAD + setbad("index", 0, -1),
}
FITTED = usebad("fit", (numpy.ones((2, 3)),), (numpy.ones((2, 1)),))     # other dimensions than those of a diversity set
SLOW = ("FirFilter", "IirFilter")
ACCEPTED = {      # assignments inside, at any point
    "ComplexBandpassFilter": [("frequency", v) for v in (-1.0, 1.0, 0.0, 0.3)] + [("rate", v) for v in (0.0, 1.0, 0.4)],
    "ComplexFrequencyFilter": [("frequency", v) for v in (-1.0, 1.0, 0.0, 0.3)] + [("rate", v) for v in (0.0, 1.0, 0.4)],
    "ComplexExponentialFilter": [("phase", v) for v in (-1.0, 1.0, 0.0, 0.3)],
    "GoertzelFilter": [("frequency", v) for v in (-1.0, 1.0, 0.0, 0.3)],
    "PidFilter": [("limit", v) for v in (5e-324, 0.1, 7.0, INF)],
    "PolynomialRateFilter": [("rate", v) for v in (0.0, 0.5, 1.0, 9.0)] + [("order", v) for v in (1, 2, 3)],
    "PolyphaseRateFilter": [("rate", v) for v in (0.01, 1.0, 256.0, 256)],
    "RankFilter": [("index", v) for v in (0, 1, 2, 3)],
    "GaussianModel": [("regularize", v) for v in (0.0, 0.5, 9.0)],
    "GaussianMixtureModel": [("regularize", v) for v in (0.0, 0.5, 9.0)] + [("index", v) for v in (1, 2, 500)],
}


def cases(tier, seed):
    quick = tier == "quick"
    for name in SETS:
        n = sum(1 for _ in SETS[name]())
        for i in range(0, n, 100):
            yield dict(k="set", name=name, part=[i, i + 100])
    for order in (1, 2, 3, 4):
        yield dict(k="mixture", order=order)
    for name in REJECTED:
        ops = range(len(zoo.ZOO[name][1]))
        depth = 2 if quick else 3
        for d in range(depth + 1):
            for w in itertools.product(ops, repeat=d):
                yield dict(k="history", name=name, word=list(w))


def check_set(out, name, part):
    for i, (what, f, want) in enumerate(SETS[name]()):
        if i < part[0]:
            continue
        if i >= part[1]:
            break
        try:
            f()
            got = None
        except Exception as ex:
            got = ex
        out.transitions += 1
        out.evaluations += 1
        out.state(what)
        if want == "any":
            continue
        if want is None and got is not None:
            raise Violation(f"{what}: rejected with {type(got).__name__}: {got}, expected to be accepted")
        if want is not None and not isinstance(got, want):
            raise Violation(f"{what}: {'accepted' if got is None else f'raised {type(got).__name__}: {got}'}, expected {want.__name__}")


def later(o, name, n):
    res = [zoo.look(o, name)]
    for k in range(len(zoo.ZOO[name][1])):
        res += zoo.run(o, name, [k], n + k)
    return res + [zoo.look(o, name)]


MADE = {}


def make(name, word):
    import copy

    if name in SLOW:
        if name not in MADE:
            MADE[name] = zoo.ZOO[name][0]()
        o = copy.deepcopy(MADE[name])
    else:
        o = zoo.ZOO[name][0]()
    zoo.run(o, name, word)
    return o


def check_history(out, name, word):
    want = later(make(name, word), name, len(word))
    bad = list(REJECTED[name])
    if name == "DiversityModel" and make(name, word).s.shape[1]:
        bad += FITTED
    for what, f, kind in bad:
        for times in (1, 2):
            o = make(name, word)
            before = zoo.look(o, name)
            for _ in range(times):
                rejects(lambda: f(o), f"{name} after {word}: {what}", (kind,))
            if not zoo.equal(zoo.look(o, name), before):
                raise Violation(f"{name} after {word}: {what}, which was rejected, modifies {before} to {zoo.look(o, name)}")
            got = later(o, name, len(word))
            if not zoo.equal(got, want):
                raise Violation(f"{name} after {word}: after {what}, which was rejected, later results are {got}, expected {want}")
            out.transitions += times + len(word)
            out.traces += 1
            out.state(name, word, what)
    o = make(name, word)
    for what, f, kind in bad:
        rejects(lambda: f(o), f"{name} after {word}: {what}", (kind,))
    need(zoo.equal(later(o, name, len(word)), want), f"{name} after {word}: after every rejected operation, later results differ")
    for attr, v in ACCEPTED.get(name, ()):
        setattr(o, attr, v)
        need(getattr(o, attr) == v, f"{name} after {word}: {attr} assigned {v} is {getattr(o, attr)}")
        out.transitions += 1


def check_mixture(out, order):
    """fits which are rejected at any label, before and after one which is accepted"""
    x = generic(5, 48).reshape(24, 2)
    labels = numpy.arange(24) % 3
    q = generic(6, 10).reshape(5, 2)
    holes = [x.copy() for _ in range(3)]
    for i, h in enumerate(holes):
        h[i, i % 2] = (numpy.nan, INF, -INF)[i]
    few = [numpy.where(labels == i, numpy.arange(24) < (2 if order > 2 else 1) * 3, True) for i in range(3)]
    bad = [(h, labels) for h in holes] + [(x[f], labels[f]) for f in few] + [(x[:1], labels[:1]), (x, numpy.arange(24)), (x[:, 0], labels), (x, labels[:5]), (x[:0], labels[:0])]
    for fitted in (False, True):
        for word in itertools.product(range(len(bad)), repeat=2):
            m = GaussianMixtureModel(order=order, index=7, regularize=0.25)
            if fitted:
                m.fit(x, labels)
                want = m.predict(q)
            before = (m.order, m.index, m.regularize, m.shape)
            for i in word:
                what = f"mixture of order {order}{' fitted' * fitted}: fit {i} of {bad[i][0].shape} with labels {bad[i][1].tolist()}"
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    rejects(lambda: m.fit(*bad[i]), what)
                need((m.order, m.index, m.regularize, m.shape) == before, f"{what}, which was rejected: order, index, regularize, shape are {(m.order, m.index, m.regularize, m.shape)}, were {before}")
                if fitted:
                    need((m.predict(q) == want).all(), f"{what}, which was rejected: predictions differ")
                else:
                    rejects(lambda: m.predict(q), f"{what}, which was rejected, then a prediction")
                out.transitions += 2
            out.traces += 1
            out.state(order, fitted, word)


def run_case(spec):
    out = Out()
    k = dict(spec)
    globals()["check_" + k.pop("k")](out, **k)
    out.outcome = spec
    return out
