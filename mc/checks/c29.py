"""C29: every operation with every kind of input, and every interleaving of histories of two instances."""
import copy
import itertools

import numpy
from diamondback import (
    ComplexBandpassFilter,
    ComplexExponentialFilter,
    ComplexFrequencyFilter,
    ComplexTransform,
    DerivativeFilter,
    DiversityModel,
    FirFilter,
    FourierTransform,
    GaussianMixtureModel,
    GaussianModel,
    GoertzelFilter,
    IirFilter,
    IntegralFilter,
    PidFilter,
    PolynomialRateFilter,
    PolyphaseRateFilter,
    PsdTransform,
    RankFilter,
    Serial,
    WaveletTransform,
    WindowFilter,
    ZTransform,
)

from mc import zoo
from mc.core import Out, Violation
from mc.fork import isolated
from mc.util import generic, need

ID, LEVEL = "C29", "model_checking"
RULE = (
    "case = (operation, kind of every input): inputs are compared before and after, results with their memory, and later results with those of a twin after inputs and results have been overwritten; or "
    "(two classes, words): every interleaving of the construction and the operations of two instances, followed by a new instance, each compared bit for bit with what the instance does alone in a process of its own. "
    "State = (case, interleaving). Nontrivial: all."
)
ASSUMPTIONS = ["the arrays returned by the properties a, b and s of an instance are its own coefficients and state", "the filter bank returned by the property b of polyphase rate filters is shared, as documented, and is not written"]
INF = {}

# operation: (make instance or None, function(instance, *arguments) -> results, base arguments, probe(instance) -> later results)
G = lambda seed, *shape: generic(seed, int(numpy.prod(shape))).reshape(shape)
FIR = lambda: FirFilter(b=[0.5, -0.25, 0.3])
IIR = lambda: IirFilter(a=[0, 0.5, -0.2], b=[1.0, 2.0, 0.5])
LAB = numpy.array([0, 1, 0, 1, 1, 0, 0, 1])


def later(o):
    return [o.filter(G(91, 6))]


def many(r):
    return list(r) if isinstance(r, (tuple, list)) else [r]


def m_filter(o, x):
    return many(o.filter(x))


def assign(name):
    def f(o, v):
        setattr(o, name, v)
        return []

    return f


def fitted(cls, **kw):
    def f():
        m = cls(regularize=0.2, **kw)
        m.fit(G(3, 8, 2), LAB)
        return m

    return f


def labelled(cls, c, d, **kw):
    m = cls(regularize=0.2, **kw)
    numpy.random.seed(5)
    m.fit(G(3, 8, d), numpy.arange(8) % c + 3)
    return m


def fit(o, x, y):
    numpy.random.seed(5)
    o.fit(x, y)
    return []


PREDICT = lambda o: [o.predict(G(92, 5, 2))]
FILTERS = {
    "FirFilter": FIR, "IirFilter": IIR, "ComplexBandpassFilter": lambda: ComplexBandpassFilter(0.2, 0.1), "ComplexExponentialFilter": lambda: ComplexExponentialFilter(0.3),
    "ComplexFrequencyFilter": lambda: ComplexFrequencyFilter(0.2, 0.1), "DerivativeFilter": lambda: DerivativeFilter(1, 2), "GoertzelFilter": lambda: GoertzelFilter([1.0, 2.0, 1.0], 0.3),
    "IntegralFilter": lambda: IntegralFilter(2), "PidFilter": lambda: PidFilter([0.5, 0.2, 0.1]), "PolynomialRateFilter": lambda: PolynomialRateFilter(0.7, 2), "PolynomialRateFilter up": lambda: PolynomialRateFilter(1.7, 3),
    "PolynomialRateFilter one": lambda: PolynomialRateFilter(1.0, 1), "PolyphaseRateFilter": lambda: PolyphaseRateFilter(0.7), "RankFilter": lambda: RankFilter(1, 2), "RankFilter none": lambda: RankFilter(0, 0),
    "WindowFilter": lambda: WindowFilter("Hann", 7),
}
OPS = {}
for _n, _m in FILTERS.items():
    OPS[f"{_n}.filter"] = (_m, m_filter, [0.5 * G(1, 8)], (lambda o: [o.filter(0.5 * G(91, 8))]))
for _n in ("FirFilter", "IirFilter"):
    OPS[f"{_n}.filter complex"] = (lambda _n=_n: FirFilter(b=[0.5 + 0j, 1j]) if _n == "FirFilter" else IirFilter(a=[0, 0.5j], b=[1.0 + 0j, 1.0]), m_filter, [generic(1, 8, "complex")], later)
for _n in ("ComplexBandpassFilter", "ComplexFrequencyFilter", "GoertzelFilter"):
    OPS[f"{_n}.filter complex"] = (FILTERS[_n], m_filter, [generic(1, 8, "complex")], later)
for _n, _a in (("FirFilter", "b"), ("FirFilter", "s"), ("IirFilter", "a"), ("IirFilter", "b"), ("IirFilter", "s"), ("DerivativeFilter", "s"), ("PidFilter", "b"), ("PidFilter", "s"), ("RankFilter", "s"), ("PolyphaseRateFilter", "s")):
    OPS[f"{_n}.{_a} ="] = (FILTERS[_n], assign(_a), [G(2, 15 if _n.startswith("Polyph") else 3)], later)
OPS["DiversityModel.s ="] = (lambda: DiversityModel("Euclidean", 2), assign("s"), [G(2, 3, 2)], lambda o: [o.fit(G(93, 4, 2))])
OPS["FirFilter(b)"] = (None, lambda o, b: [FirFilter(b=b)], [G(2, 3)], None)
OPS["FirFilter(b, s)"] = (None, lambda o, b, s: [FirFilter(b=b, s=s)], [G(2, 3), G(3, 3)], None)
OPS["FirFilter(b, short s)"] = (None, lambda o, b, s: [FirFilter(b=b, s=s)], [G(2, 3), G(3, 1)], None)
OPS["IirFilter(a, b)"] = (None, lambda o, a, b: [IirFilter(a=a, b=b)], [numpy.array([0.0, 0.5, -0.25]), G(3, 3)], None)
OPS["IirFilter(a, b, s)"] = (None, lambda o, a, b, s: [IirFilter(a=a, b=b, s=s)], [numpy.array([0.0, 0.5, -0.25]), G(3, 3), G(4, 3)], None)
OPS["IirFilter(short a, b, s)"] = (None, lambda o, a, b, s: [IirFilter(a=a, b=b, s=s)], [numpy.array([0.0, 0.5]), G(3, 3), G(4, 4)], None)
OPS["GoertzelFilter(b)"] = (None, lambda o, b: [GoertzelFilter(b, 0.3)], [G(2, 4)], None)
OPS["PidFilter(b)"] = (None, lambda o, b: [PidFilter(b)], [G(2, 3)], None)
OPS["WindowFilter.filter complex"] = (FILTERS["WindowFilter"], m_filter, [generic(1, 8, "complex")], lambda o: [o.filter(G(91, 8))])
for _i, _s in (("1", (8,)), ("1", (4, 4)), ("2", (8,)), ("2", (4, 8)), ("1", (1, 8)), ("1", (8, 1)), ("1", (1,))):
    for _inv in (False, True):
        OPS[f"WaveletTransform.transform {_i} {_s} {_inv}"] = (lambda: WaveletTransform("Haar", 1), lambda o, x, _c=int(_i), _v=_inv: [o.transform(x, _c, _v)], [G(1, *_s)], lambda o: [o.transform(G(91, 8), 1)])
OPS["ComplexTransform.transform"] = (None, lambda o, x: [ComplexTransform.transform(x)], [G(1, 3, 8)], None)
OPS["ComplexTransform.transform absolute"] = (None, lambda o, x: [ComplexTransform.transform(x, False)], [G(1, 3, 8)], None)
OPS["ComplexTransform.transform complex"] = (None, lambda o, x: [ComplexTransform.transform(x)], [generic(1, 8, "complex")], None)
OPS["ComplexTransform.transform complex absolute"] = (None, lambda o, x: [ComplexTransform.transform(x, False)], [generic(1, 8, "complex")], None)
OPS["FourierTransform.transform"] = (None, lambda o, x, b: many(FourierTransform.transform(x, b)), [G(1, 8), abs(G(2, 8))], None)
OPS["FourierTransform.transform inverse"] = (None, lambda o, x, b: many(FourierTransform.transform(x, b, True)), [generic(1, 8, "complex"), abs(G(2, 8))], None)
OPS["PsdTransform.transform"] = (None, lambda o, x, b: many(PsdTransform.transform(x, b, 4)), [G(1, 20), abs(G(2, 8))], None)
OPS["PsdTransform.transform spectrogram"] = (None, lambda o, x, b: many(PsdTransform.transform(x, b, 4, True)), [G(1, 20), abs(G(2, 8))], None)
for _bil in (True, False):
    OPS[f"ZTransform.transform {_bil}"] = (None, lambda o, u, v, _b=_bil: many(ZTransform.transform(u, v, 8.0, _b)), [numpy.array([1.0, 2.0, 1.5]), numpy.array([1.0, 0.5])], None)
    OPS[f"ZTransform.transform {_bil} leading zeros"] = (None, lambda o, u, v, _b=_bil: many(ZTransform.transform(u, v, 8.0, _b)), [numpy.array([0.0, 1.0, 2.0, 1.5]), numpy.array([0.0, 1.0, 0.5])], None)
for _n in (0, 2):
    for _s in DiversityModel.STYLE:
        OPS[f"DiversityModel {_s} {_n}.fit"] = (lambda _s=_s, _n=_n: DiversityModel(_s, _n), lambda o, x: [o.fit(x)], [G(1, 5, 2)], lambda o: [o.fit(G(93, 4, 2))])
OPS["GaussianModel.fit"] = (lambda: GaussianModel(0.2), fit, [G(1, 8, 2), LAB], PREDICT)
OPS["GaussianModel.fit again"] = (fitted(GaussianModel), fit, [G(1, 8, 2), LAB], PREDICT)
OPS["GaussianModel.predict"] = (fitted(GaussianModel), lambda o, x: [o.predict(x)], [G(1, 8, 2)], PREDICT)
OPS["GaussianMixtureModel.fit"] = (lambda: GaussianMixtureModel(1, 5, 0.2), fit, [G(1, 8, 2), LAB], PREDICT)
OPS["GaussianMixtureModel.predict"] = (fitted(GaussianMixtureModel, order=1), lambda o, x: [o.predict(x)], [G(1, 8, 2)], PREDICT)
for _c in (1, 2, 3):
    for _k in (1, 2, 4):
        for _d in (1, 2):
            for _cls, _kw in (("GaussianModel", {}), ("GaussianMixtureModel", dict(order=1)), ("GaussianMixtureModel", dict(order=2))):
                OPS[f"{_cls} {_kw} of {_c} labels, {_d} features .predict {_k} rows"] = (
                    lambda _c=_c, _d=_d, _cls=_cls, _kw=_kw: labelled(globals()[_cls], _c, _d, **_kw), lambda o, x: [o.predict(x)], [G(1, _k, _d)], lambda o, _d=_d: [o.predict(G(92, 1, _d)), o.predict(G(92, 5, _d))])
for _n in ("FirFilter", "IirFilter"):
    for _c in ("response", "delay", "roots"):
        OPS[f"{_n}.{_c}"] = (FILTERS[_n], lambda o, _c=_c: many(getattr(o, _c)(8) if _c != "roots" else o.roots()), [], later)
OPS["Serial.encode"] = (None, lambda o, x: [Serial.encode(x, False)], [G(1, 2, 3)], None)
# the same operations on longer signals, and on inputs of which the first and last elements are zero
for _n in list(OPS):
    _make, _f, _base, _probe = OPS[_n]
    if ".filter" in _n and not _n.startswith("WindowFilter"):
        OPS[f"{_n} long"] = (_make, _f, [numpy.concatenate([_base[0]] * 16)], _probe)
    if (_n.startswith(("Fourier", "Psd", "Complex", "Wavelet", "Goertzel", "IirFilter(", "FirFilter(")) or ".filter" in _n) and any(len(v) > 2 for v in _base):
        def _edge(v, a, b):
            v = numpy.array(v)
            if len(v) > 2 and v.dtype.kind in "fc":
                v[0], v[-1] = a, b
                if a and v.dtype.kind == "c":
                    v[1] = v[1].real + 1e-12j
            return v
        OPS[f"{_n} edges"] = (_make, _f, [_edge(v, 0.0, 0.0) for v in _base], _probe)
        # or negligible
        if not _n.startswith("IirFilter("):
            OPS[f"{_n} faint"] = (_make, _f, [_edge(v, 1e-12, -1e-300) for v in _base], _probe)
# and on inputs of every short length: one sample, as many as the instance holds, one fewer and one more
for _n in list(OPS):
    _make, _f, _base, _probe = OPS[_n]
    if _n.endswith((".filter", ".filter complex")) and not _n.startswith("WindowFilter"):
        for _k in range(2 if _n.startswith("PolynomialRate") else 1, 6):
            OPS[f"{_n} of {_k} samples"] = (_make, _f, [_base[0][:_k]], _probe)
for _k in range(1, 6):
    for _o in range(0, 4):
        OPS[f"DiversityModel Manhattan {_o}.fit of {_k} rows"] = (lambda _o=_o: DiversityModel("Manhattan", _o), lambda o, x: [o.fit(x)], [G(1, _k, 2)], lambda o: [o.fit(numpy.concatenate((G(93, 2, 2), 9.0 * G(94, 4, 2)))), numpy.array(o.s)])
        OPS[f"DiversityModel Manhattan {_o}.s = then fit of {_k} rows"] = (lambda _o=_o: DiversityModel("Manhattan", _o), lambda o, s, x: [setattr(o, "s", s), o.fit(x)][1:], [G(2, _o + 1, 2), G(1, _k, 2)], lambda o: [o.fit(numpy.concatenate((G(93, 2, 2), 9.0 * G(94, 4, 2)))), numpy.array(o.s)])
KINDS = ("array", "view", "reversed", "readonly", "fortran", "list", "int", "ilist", "f32", "tuple", "column")
NOT = {     # kinds outside of the domain of an operation
    "fit": ("list", "tuple", "ilist"), "predict": ("list", "tuple", "ilist"),
}


def convert(v, kind):
    """(argument, what has to remain as it is)"""
    v = numpy.array(v)
    if kind == "array":
        return v, v
    if kind == "view":
        m = numpy.full(tuple(3 * n + 2 for n in v.shape), 7, v.dtype)
        w = m[tuple(slice(1, 1 + 3 * n, 3) for n in v.shape)]
        w[...] = v
        return w, m
    if kind == "reversed":
        m = numpy.array(v[::-1])
        return m[::-1], m
    if kind == "readonly":
        v.flags.writeable = False
        return v, v
    if kind == "fortran":
        v = numpy.asfortranarray(v)
        return v, v
    if kind == "column":
        m = numpy.zeros(v.shape + (2,), v.dtype)
        m[..., 1] = v
        return m[..., 1], m
    if kind in ("list", "tuple"):
        t = v.tolist() if v.ndim == 1 else [numpy.array(r) for r in v]
        t = tuple(t) if kind == "tuple" else t
        return t, t
    if kind in ("int", "ilist"):
        if numpy.iscomplexobj(v):
            return None
        w = numpy.array([int(round(8 * u)) for u in v.ravel()]).reshape(v.shape) if v.dtype.kind == "f" else v.astype(int)
        if kind == "ilist":
            w = w.tolist()
        return w, w
    if kind == "f32":
        v = v.astype(numpy.complex64 if numpy.iscomplexobj(v) else numpy.float32 if v.dtype.kind == "f" else numpy.int32)
        return v, v
    raise KeyError(kind)


def frozen(m):
    return copy.deepcopy(m)


def unchanged(m, keep):
    if isinstance(m, (list, tuple)):
        return type(m) is type(keep) and len(m) == len(keep) and all(unchanged(a, b) for a, b in zip(m, keep))
    if isinstance(m, numpy.ndarray):
        return m.shape == keep.shape and m.dtype == keep.dtype and m.tobytes() == keep.tobytes()
    return type(m) is type(keep) and m == keep


def spoil(v):
    """overwrites what the caller, or a result, holds"""
    if isinstance(v, numpy.ndarray):
        if v.flags.writeable and v.dtype.kind in "fciu":
            v[...] = 1
        elif not v.flags.writeable and v.base is None and v.dtype.kind in "fciu":
            v.flags.writeable = True
            v[...] = 1
    elif isinstance(v, list):
        for i, u in enumerate(v):
            if isinstance(u, (numpy.ndarray, list)):
                spoil(u)
            else:
                v[i] = 1
    elif isinstance(v, tuple):
        for u in v:
            spoil(u)


def outputs(r):
    """arrays, or, of an instance, what it does"""
    res = []
    for v in r:
        if hasattr(v, "filter"):
            res += [numpy.array(v.b), numpy.array(v.s)] + [v.filter(G(91, 6))]
        else:
            res.append(numpy.array(v) if isinstance(v, numpy.ndarray) else v)
    return res


def apply(name, kinds, spoiled):
    make, f, base, probe = OPS[name]
    o = make() if make else None
    args = [convert(v, k) for v, k in zip(base, kinds)]
    keep = [frozen(m) for _, m in args]
    r = f(o, *[a for a, _ in args])
    for i, (a, m) in enumerate(args):
        need(unchanged(m, keep[i]), f"{name} with {kinds}: argument {i} is modified from {keep[i]} to {m}")
    for v in r:
        arrays = [v] if isinstance(v, numpy.ndarray) else [getattr(v, n) for n in ("a", "b", "s") if isinstance(getattr(v, n, None), numpy.ndarray)]
        for u, (i, (a, m)) in itertools.product(arrays, enumerate(args)):
            for w in [m] + [t for t in (m if isinstance(m, (list, tuple)) else [])]:
                if isinstance(w, numpy.ndarray):
                    need(not numpy.shares_memory(u, w), f"{name} with {kinds}: a result shares memory with argument {i}")
    for u, v in itertools.combinations([v for v in r if isinstance(v, numpy.ndarray)], 2):
        need(not numpy.shares_memory(u, v), f"{name} with {kinds}: results share memory")
    if spoiled:
        for _, m in args:
            spoil(m)
        for v in r:
            spoil(v)
    res = outputs(r) if not spoiled or any(hasattr(v, "filter") for v in r) else []
    if probe:
        res = [numpy.array(v) for v in probe(o)]
        # and the arguments given remain as they are while the instance operates
        if not spoiled:
            for i, (a, m) in enumerate(args):
                need(unchanged(m, keep[i]), f"{name} with {kinds}: argument {i} is modified later from {keep[i]} to {m}")
    if not spoiled:
        # results which are kept remain as they are while the operation is repeated with other data of the same shapes
        arrays = [v for v in r if isinstance(v, numpy.ndarray)]
        if arrays:
            copies = [numpy.array(v) for v in arrays]
            more = [numpy.array(base_) if numpy.asarray(base_).dtype.kind in "iu" else -1.1 * numpy.asarray(base_) if not name.startswith("ComplexExp") else -0.9 * numpy.asarray(base_) for base_ in base]
            for i in o, o, make() if make else None:
                r2 = [v for v in f(i, *more) if isinstance(v, numpy.ndarray)]
                for u, v in itertools.product(arrays, r2):
                    need(not numpy.shares_memory(u, v), f"{name} with {kinds}: results of two operations share memory")
                for u, w in zip(arrays, copies):
                    need(unchanged(u, w), f"{name} with {kinds}: a result changes from {w} to {u} when the operation is repeated")
    return res


def check_input(name, kinds):
    want, got = apply(name, kinds, False), apply(name, kinds, True)
    if OPS[name][3] or any(hasattr(v, "filter") for v in OPS[name][1](OPS[name][0]() if OPS[name][0] else None, *[numpy.array(v) for v in OPS[name][2]])):
        need(zoo.equal(got, want), f"{name} with {kinds}: after arguments and results are overwritten, later results are {got}, expected {want}")
    return 2


# instances


def table():
    """every instance made of a class level table: (class name, arguments)"""
    t = [("DerivativeFilter", (d, o)) for d in DerivativeFilter.B for o in DerivativeFilter.B[d]]
    t += [("IntegralFilter", (o,)) for o in IntegralFilter.B]
    t += [("WaveletTransform", (s, o)) for s in WaveletTransform.B for o in WaveletTransform.B[s]]
    t += [("WindowFilter", (s, 5)) for s in WindowFilter.STYLE]
    return t


def behave(cls, args):
    o = globals()[cls](*args)
    if cls == "WaveletTransform":
        return [v for u in o.b for v in u] + [o.transform(G(1, 16), 2), o.transform(G(1, 16), 1, True)]
    r = [numpy.array(o.b)] + ([numpy.array(o.s)] if hasattr(o, "s") else [])
    return r + [o.filter(G(1, 6)), o.filter(G(2, 6))]


def behave_all():
    return [behave(*t) for t in table()]


def abuse(cls, args):
    """one instance is operated, and its own coefficients and state are overwritten; then new instances of the table"""
    o = globals()[cls](*args)
    if cls == "WaveletTransform":
        o.transform(G(5, 16), 1), o.transform(G(5, 16), 1, True), o.transform(G(5, 4, 8), 2)
        for u in o.b:
            for v in u:
                v[:] = 3.0
    else:
        o.filter(G(5, 6))
        if hasattr(o, "s"):
            o.reset(0.5)
            o.s[:] = 2.0
            o.response(8), o.delay(8), o.roots()
        o.b[:] = 3.0
        if hasattr(o, "a"):
            o.a[1:] = 0.1
    return behave_all()


def check_table(cls, args):
    want, got = isolated(behave_all), isolated(abuse, cls, tuple(args))
    for t, w, g in zip(table(), want, got):
        need(zoo.equal(g, w), f"a new instance of {t} is {g} after operations on an instance of {(cls, args)}, expected {w}")
    return len(got)


def alone(name, words, start=0):
    res = {}
    for w in words:
        o = zoo.ZOO[name][0]()
        res[w] = zoo.run(o, name, w, start) + [zoo.look(o, name)]
    return res


def merges(n, m):
    for c in itertools.combinations(range(n + m), n):
        c = set(c)
        yield tuple(0 if i in c else 1 for i in range(n + m))


def interleave(names, words, order, fresh):
    """observations of each instance, and of new instances made at the end"""
    obj, at, res = [None, None], [0, 0], [[], []]
    for w in order:
        if obj[w] is None:
            obj[w] = zoo.ZOO[names[w]][0]()
        else:
            k = at[w]
            res[w] += zoo.run(obj[w], names[w], words[w][k:k + 1], START * w + k)
            at[w] += 1
    for w in (0, 1):
        res[w].append(zoo.look(obj[w], names[w]))
    new = []
    if fresh:
        for name in dict.fromkeys(names):
            o = zoo.ZOO[name][0]()
            new.append(zoo.run(o, name, FRESH) + [zoo.look(o, name)])
    return res, new


FRESH = (0,)
START = 7          # the steps of the second instance, so that its data are of the same shapes and not the same


def interleavings(names, pairs, slow):
    res = []
    for wa, wb in pairs:
        for i, order in enumerate(merges(1 + len(wa), 1 + len(wb))):
            res.append(((wa, wb), order, interleave(names, (wa, wb), order, not slow or i == 0)))
    return res


SLOW = ("FirFilter designed", "IirFilter designed")


def pairs_of(names, depth):
    a, b = (range(len(zoo.ZOO[n][1])) for n in names)
    if depth == 1:
        return [((i,), (j,)) for i in a for j in b]
    return [((i, j), (k, l)) for i in a for j in a for k, l in [(b[(i + 1) % len(b)], b[j % len(b)]), (b[0], b[i % len(b)])]]


def check_pair(names, depth, part):
    pairs = sorted(set(pairs_of(names, depth)))[part[0]::part[1]]
    base = [isolated(alone, n, sorted({p[i] for p in pairs}), START * i) for i, n in enumerate(names)]
    first = {n: isolated(alone, n, [FRESH])[FRESH] for n in names}
    n = 0
    for words, order, (res, new) in isolated(interleavings, names, pairs, any(v in SLOW for v in names), seconds=300):
        what = f"{names}, words {words} interleaved as {order}"
        for w in (0, 1):
            need(zoo.equal(res[w], base[w][words[w]]), f"{what}: instance {w} observes {res[w]}, alone {base[w][words[w]]}")
        for name, v in zip(dict.fromkeys(names), new):
            want = first[name]
            need(zoo.equal(v, want), f"{what}: a new {name} observes {v}, alone {want}")
        n += 1
    return n


CASE_SECONDS = 400
BATCH = 4


def cases(tier, seed):
    quick = tier == "quick"
    for name in OPS:
        n = len(OPS[name][2])
        bad = next((v for k, v in NOT.items() if f"Model.{k}" in name or name.startswith("Gaussian") and k in name), ())
        for kinds in itertools.product(KINDS, repeat=n) if n < 3 else [k for k in itertools.product(KINDS, repeat=n) if len(set(k)) <= (2 if quick else 3)]:
            if name.startswith("GaussianM") and (set(kinds) & set(bad) or n > 1 and kinds[1] == "tuple"):
                continue
            if name.startswith("ComplexExponential") and set(kinds) & {"int", "ilist"}:
                continue        # frequencies in [-1, 1]
            if any(numpy.iscomplexobj(v) and k in ("int", "ilist") for v, k in zip(OPS[name][2], kinds)):
                continue
            yield dict(k="input", name=name, kinds=list(kinds))
    for t in table():
        yield dict(k="table", cls=t[0], args=list(t[1]))
    for names in itertools.combinations_with_replacement(zoo.ZOO, 2):
        slow = sum(v in SLOW for v in names)
        parts = 4 if slow else 1
        for i in range(parts):
            yield dict(k="pair", names=list(names), depth=1, part=[i, parts])
        if (names[0] == names[1] or not quick) and (not slow or not quick):
            for i in range(2 * parts):
                yield dict(k="pair", names=list(names), depth=2, part=[i, 2 * parts])


def run_case(spec):
    out = Out()
    k = dict(spec)
    kind = k.pop("k")
    n = globals()["check_" + kind](**k)
    out.transitions += n
    out.traces += n
    out.state(spec)
    out.evaluations = n
    out.outcome = spec
    return out
