"""Every class of the library with its operations, as a transition system: used by C24, C27 and C29.

make(variant) builds an instance; each operation is a function (instance, step) -> observed values, and its inputs are
determined by step alone."""
import numpy
from diamondback import (
    ComplexBandpassFilter,
    ComplexExponentialFilter,
    ComplexFrequencyFilter,
    DerivativeFilter,
    DiversityModel,
    FirFilter,
    GaussianMixtureModel,
    GaussianModel,
    GoertzelFilter,
    IirFilter,
    IntegralFilter,
    PidFilter,
    PolynomialRateFilter,
    PolyphaseRateFilter,
    RankFilter,
    RestClient,
    WaveletTransform,
    WindowFilter,
)

from mc.util import generic, signal


def data(step, n, name="gen"):
    return signal(name, n, 11 + step * 3 + n)


def attrs(*names):
    def f(o, t):
        return [numpy.array(getattr(o, n)) if getattr(o, n) is not None else None for n in names]

    return f


def filt(n, name="gen", g=1.0):
    def f(o, t):
        x = data(t, n, name)
        if g != 1.0:
            x = x * g
        r = o.filter(x)
        return list(r) if isinstance(r, tuple) else [r]

    f.__name__ = f"filter_{name}_{n}"
    return f


def setter(name, a, b):
    def f(o, t):
        setattr(o, name, b if getattr(o, name) == a else a)
        return [getattr(o, name)]

    f.__name__ = f"set_{name}"
    return f


def call(name, *args, **kw):
    def f(o, t):
        r = getattr(o, name)(*args, **kw)
        return list(r) if isinstance(r, tuple) else [r]

    f.__name__ = name
    return f


def assign_b(o, t):
    o.b = numpy.array(o.b) * -0.5
    return [numpy.array(o.b)]


def assign_s(o, t):
    o.s = numpy.array(o.s) + 0.25
    return [numpy.array(o.s)]


def window(o, t):
    return [o.filter(data(t, len(o.b))), o.filter(data(t, len(o.b), "cgen"))]


def wavelet(count, inverse, shape):
    def f(o, t):
        n = shape[0] * (shape[1] if len(shape) > 1 else 1)
        return [o.transform(data(t, n).reshape(shape), count, inverse)]

    f.__name__ = f"transform_{count}_{inverse}_{shape}"
    return f


def diversity(n):
    def f(o, t):
        return [o.fit(data(t, 2 * n).reshape(n, 2)), numpy.array(o.s)]

    f.__name__ = f"fit_{n}"
    return f


def gfit(k):
    def f(o, t):
        numpy.random.seed(7)
        o.fit(data(t, 16).reshape(8, 2) * 2, numpy.array([(i * k) % 3 - 1 if k == 1 else (i // 2) % 2 * 4 for i in range(8)]))
        return [numpy.array(o.shape)]

    f.__name__ = f"fit_{k}"
    return f


def gpredict(o, t):
    try:
        return [o.predict(data(t, 10).reshape(5, 2) * 2)]
    except (ValueError, RuntimeError):
        return ["not fitted"]


def rest_get(o, t):
    return [o.url, str(o.timeout), str(sorted((o.proxy or {}).items()))]


def rest_url(o, t):
    o.url = f"http://127.0.0.1:{2000 + t}/"
    return [o.url]


def rest_timeout(o, t):
    o.timeout = (1.0 + t, 2.0)
    return [str(o.timeout)]


def rest_proxy(o, t):
    o.proxy = dict(http=f"http://p{t}")
    return [str(o.proxy)]


BANK = ("b", "s")
FIR_OPS = [filt(2), filt(5), call("reset", 0.6), assign_b, assign_s, call("response", 8), call("delay", 8), call("roots")]
ZOO = {
    "FirFilter": (lambda: FirFilter(b=[0.01, 0.08, 0.2, 0.31, 0.19, 0.07, 0.02]), FIR_OPS, attrs("b", "s")),
    "FirFilter designed": (lambda: FirFilter(style="Hann", frequency=0.3, order=6), [filt(3), call("reset", 0.6)], attrs("b", "s")),
    "FirFilter complex": (lambda: FirFilter(b=[0.5 + 0.1j, -0.25j, 0.3], s=[0.1]), [filt(3, "cgen"), filt(2), call("reset", 0.5 - 0.5j), assign_b], attrs("b", "s")),
    "IirFilter": (lambda: IirFilter(a=[0, 0.9, -0.4, 0.1], b=[0.05, 0.15, 0.15, 0.05]), [filt(2), filt(5), call("reset", 0.6), assign_b, assign_s, call("response", 8), call("delay", 16)], attrs("a", "b", "s")),
    "IirFilter designed": (lambda: IirFilter(style="Chebyshev", frequency=0.2, order=3), [filt(3), call("reset", 0.6)], attrs("a", "b", "s")),
    "IirFilter explicit": (lambda: IirFilter(a=[0, 0.5, -0.2], b=[1, 2], s=[0.5]), [filt(1), filt(4), call("reset", -1.0), assign_s, call("roots")], attrs("a", "b", "s")),
    "ComplexBandpassFilter": (lambda: ComplexBandpassFilter(frequency=0.2, rate=0.1), [filt(4), filt(3, "cgen"), setter("frequency", -0.3, 0.4), setter("rate", 0.05, 0.2)], attrs("b", "frequency", "rate")),
    "ComplexExponentialFilter": (lambda: ComplexExponentialFilter(phase=0.4), [filt(2, g=0.5), filt(5, g=0.5), setter("phase", 0.9, -0.2)], attrs("phase")),
    "ComplexFrequencyFilter": (lambda: ComplexFrequencyFilter(frequency=0.2, rate=0.1), [filt(4), filt(3, "cgen"), setter("frequency", -0.3, 0.4), setter("rate", 0.05, 0.2), call("reset", 0.3 - 0.4j)], attrs("b", "s", "frequency", "rate")),
    "DerivativeFilter": (lambda: DerivativeFilter(derivative=2, order=4), [filt(2), filt(5), call("reset", 0.6), assign_s], attrs("b", "s")),
    "GoertzelFilter": (lambda: GoertzelFilter(b=WindowFilter("Hann", 3).b, frequency=0.3), [filt(1), filt(3), filt(6, "cgen"), setter("frequency", 0.7, -0.2)], attrs("a", "b", "s", "frequency")),
    "IntegralFilter": (lambda: IntegralFilter(order=3), [filt(2), filt(5), call("reset", 0.6), assign_s], attrs("a", "b", "s")),
    "PidFilter": (lambda: PidFilter(b=[0.5, 0.2, 0.1]), [filt(2), filt(5), setter("limit", 0.7, 3.0), call("reset", 0.3)], attrs("b", "s", "limit")),
    "PolynomialRateFilter": (lambda: PolynomialRateFilter(rate=0.7, order=2), [filt(3), filt(7), setter("rate", 1.5, 0.4), setter("order", 1, 3)], attrs("rate", "order")),
    "PolyphaseRateFilter": (lambda: PolyphaseRateFilter(rate=0.7), [filt(1), filt(4), setter("rate", 1.5, 0.4), call("reset", 0.5)], attrs("b", "s", "rate")),
    "RankFilter": (lambda: RankFilter(index=1, order=3), [filt(2), filt(5), setter("index", 0, 3), call("reset", 0.4)], attrs("b", "s", "index")),
    "WindowFilter": (lambda: WindowFilter(style="Kaiser", order=5), [window], attrs("b")),
    "WaveletTransform": (lambda: WaveletTransform(style="Daubechies", order=3), [wavelet(1, False, (8,)), wavelet(2, True, (8,)), wavelet(1, True, (4, 2)), wavelet(2, False, (4, 4))], lambda o, t: [u for v in o.b for u in v]),
    "DiversityModel": (lambda: DiversityModel(style="Manhattan", order=2), [diversity(1), diversity(3), call("clear")], attrs("s")),
    "GaussianModel": (lambda: GaussianModel(regularize=0.2), [gfit(1), gfit(2), gpredict, setter("regularize", 0.1, 1.0)], attrs("regularize", "shape")),
    "GaussianMixtureModel": (lambda: GaussianMixtureModel(order=1, index=5, regularize=0.2), [gfit(1), gfit(2), gpredict, setter("regularize", 0.1, 1.0), setter("index", 3, 9)], attrs("regularize", "shape", "index", "order")),
    "RestClient": (lambda: RestClient(), [rest_get, rest_url, rest_timeout, rest_proxy], lambda o, t: rest_get(o, t)),
}


def run(obj, name, ops, start=0):
    """Observations of a word of operations (indices), of steps start, start + 1, ..."""
    res = []
    for i, k in enumerate(ops):
        r = ZOO[name][1][k](obj, start + i)
        res.append([numpy.array(v) if isinstance(v, numpy.ndarray) else v for v in r])
    return res


def look(obj, name):
    return [numpy.array(v) if isinstance(v, numpy.ndarray) else v for v in ZOO[name][2](obj, 0)]


def equal(a, b):
    """bitwise equality of observations"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(equal(u, v) for u, v in zip(a, b))
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        a, b = numpy.asarray(a), numpy.asarray(b)
        return a.shape == b.shape and a.dtype == b.dtype and (a.tobytes() == b.tobytes() or a.dtype == object and repr(a.tolist()) == repr(b.tolist()))
    return type(a) == type(b) and (a == b or repr(a) == repr(b))
