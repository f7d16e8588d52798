"""C11: adaptive complex filters against their LMS recurrences, over splits and operation sequences."""
import cmath
import itertools
import math

import numpy
from diamondback import ComplexBandpassFilter, ComplexFrequencyFilter

from mc.core import Out, Violation
from mc.util import EXTREME, compositions, cut, same, scale, signal, words

ID, LEVEL = "C11", "model_checking"
RULE = (
    "case = (filter, frequency, rate, signal) with every composition into calls; or words over a complex sample alphabet (with zeros); or one sequence of operations (calls of complex "
    "and of real data, resets, rate and frequency changes). State = (b, phase or previous sample) of the reference. Nontrivial: rate > 0 and a second call."
)
ASSUMPTIONS = ["magnitudes are zero or at least 1e-3 (the library treats smaller than 1e-8 as zero)", "rounding up to 1e-8 relative"]
A = (0.0, 1.0, -1.0, 2.0j, 0.5 - 0.5j)
FREQ = (0.0, 0.1, -0.25, 0.5, 1.0, -1.0, -0.7)
RATE = (0.0, 0.05, 0.5, 1.0)
OPS = ["c1", "c3", "z2", "r4", "rl3", "reset", "reset0", "rate0", "rate1", "rate.3", "freq.25", "freq-1", "freq1"]


def cases(tier, seed):
    n = 7 if tier == "quick" else 11
    for kind in ("band", "freq"):
        for f in FREQ:
            for r in RATE:
                for x in ("cgen", "c0", "cmix", "clist", "c64", "gaps", "cthin", "cbig", "cview") + (("cnano", "ctiny") if kind == "band" else ()):
                    yield dict(k="sig", kind=kind, f=f, r=r, x=x, n=n, seed=seed)
                for x in ("gen", "int", "list", "ilist", "alt", *EXTREME[:9]):
                    yield dict(k="real", kind=kind, f=f, r=r, x=x, seed=seed)
                yield dict(k="reallong", kind=kind, f=f, r=r, seed=seed, top=70 if tier == "quick" else 140)
            for parts in ([1] * 300, [300], [64, 200, 36], [299, 1], [1, 299], [1025, 4097, 9], [3, 16385, 9], [65537, 9]):
                yield dict(k="long", kind=kind, f=f, r=0.1, parts=parts, seed=seed)
        for f, r in ((0.25, 0.5), (-0.5, 1.0)):
            for a in A:
                yield dict(k="words", kind=kind, f=f, r=r, first=[a.real, a.imag] if isinstance(a, complex) else [a, 0.0], m=4 if tier == "quick" else 5)
        depth = 4 if tier == "quick" else 5
        for head in itertools.product(OPS, repeat=2):
            yield dict(k="ops", kind=kind, head=list(head), depth=depth, seed=seed)


def analytic(d):
    d = numpy.asarray(d, float)
    n = len(d)
    s = numpy.fft.fft(d)
    w = numpy.zeros(n)
    w[0] = 1.0
    w[1:(n + 1) // 2] = 2.0
    if n % 2 == 0:
        w[n // 2] = 1.0
    return numpy.fft.ifft(s * w)


class Ref(object):
    def __init__(self, kind, f, r):
        self.kind, self.f, self.r = kind, f, r
        self.n = 0.0
        self.b = None if kind == "band" else cmath.exp(1j * math.pi * f)
        self.u = 1.0 + 0j
        self.total = 0

    def filter(self, d):
        y, e, b = [], [], []
        for v in numpy.asarray(d).tolist():
            if self.kind == "band":
                x = cmath.exp(1j * math.pi * self.n)
                y.append(self.b * x)
                e.append(v - y[-1])
                b.append(self.b)
                self.b += self.r * e[-1] * x.conjugate()
                self.n = math.fmod(self.n + self.f, 2.0)
            else:
                u = v / abs(v) if abs(v) else 0.0
                y.append(cmath.phase(self.b) / math.pi)
                e.append(u - self.b * self.u)
                b.append(self.b)
                self.b += self.r * e[-1] * complex(self.u).conjugate()
                self.u = u
        return y, e, b


def build(kind, f, r):
    return (ComplexBandpassFilter if kind == "band" else ComplexFrequencyFilter)(frequency=f, rate=r)


def compare(out, f, ref, d, what, real=False):
    if ref.kind == "band" and ref.b is None:
        ref.b = complex(f.b[0])
        if not abs(ref.b) <= 1e-12:
            raise Violation(f"{what}: b starts at {ref.b}")
    z = analytic(d) if real else numpy.asarray(d) + 0j
    got = f.filter(d)
    want = ref.filter(z)
    m = scale(z, want[2]) if ref.kind == "band" else scale(z, want[2], 1.0)
    tol = 1e-5 if numpy.asarray(d).dtype.itemsize == 8 and numpy.iscomplexobj(d) else 1e-8   # single precision inputs are normalised in single precision
    ref.total += len(z)
    if ref.total > 2000:
        tol = max(tol, 1e-6 * (ref.total / 16384.0) ** 2)          # the phase of a long call is accumulated, in double precision
    if ref.kind == "freq":
        # the angle is meaningless for b near zero, and ambiguous at the negative real axis
        q = numpy.asarray(want[2])
        g, w = numpy.asarray(got[0]), numpy.asarray(want[0])
        if g.shape == w.shape:
            d2 = abs(g - w)
            d2 = numpy.minimum(d2, abs(2.0 - d2)) * (abs(q) > 1e-6)
            same(d2, numpy.zeros(len(d2)), what + f": y (got {g}, expected {w})", ref=1.0, rtol=10 * tol)
        else:
            same(g, w, what + ": y")
    else:
        same(got[0], want[0], what + ": y", ref=m, rtol=tol)
    same(got[1], want[1], what + ": e", ref=m, rtol=tol)
    same(got[2], want[2], what + ": b", ref=m, rtol=tol)
    same(f.b, [ref.b], what + ": final b", ref=m, rtol=tol)
    out.transitions += 1
    out.state(ref.kind, ref.f, ref.r, numpy.round(complex(ref.b), 6), round(ref.n, 6), numpy.round(complex(ref.u), 6))


def run_case(spec):
    out = Out()
    kind, k = spec["kind"], spec["k"]
    if k == "ops":
        for tail in itertools.product(OPS, repeat=spec["depth"] - 2):
            history(out, kind, spec["head"] + list(tail), spec["seed"])
        out.outcome = spec
        return out
    f, r = spec["f"], spec["r"]
    if k == "sig":
        todo, splits = [signal(spec["x"], spec["n"], spec["seed"])], compositions
        if spec["x"] == "gaps":
            todo[0] = todo[0] * (1 + 1j)
    elif k == "words":
        first = complex(*spec["first"])
        todo = [numpy.array([first] + list(w), complex) for m in range(spec["m"]) for w in itertools.product(A, repeat=m)]
        splits = compositions
    elif k == "long":
        n = sum(spec["parts"])
        t = numpy.arange(n)
        todo = [1.5 * numpy.exp(1j * numpy.pi * (0.3 + 0.22 * t + 1e-4 * t * t)) + 0.01 * signal("cgen", n, spec["seed"])]
        splits = lambda n: [spec["parts"]]
    elif k == "reallong":
        for n in list(range(5, spec["top"])) + [127, 128, 129, 255, 256, 257]:
            if n < 60 or f == 0.1 or n % 7 == 2:
                x = signal("gen", n, spec["seed"] + n)
                compare(out, build(kind, f, r), Ref(kind, f, r), x, f"{kind} frequency {f} rate {r} of real {n}", real=True)
                out.traces += 1
        out.outcome = spec
        return out
    else:
        for n in (1, 2, 3, 4, 7, 8):
            x = signal(spec["x"], n, spec["seed"])
            compare(out, build(kind, f, r), Ref(kind, f, r), x, f"{kind} frequency {f} rate {r} of real {list(x)}", real=True)
            out.traces += 1
        out.outcome = spec
        return out
    for x in todo:
        for parts in splits(len(x)):
            g, ref = build(kind, f, r), Ref(kind, f, r)
            for i, c in enumerate(cut(x, parts)):
                compare(out, g, ref, c, f"{kind} frequency {f} rate {r} of {list(x[:10])} calls {parts[:9]} call {i + 1}")
            out.traces += 1
    out.outcome = spec
    return out


def history(out, kind, ops, seed):
    f, ref = build(kind, 0.3, 0.4), Ref(kind, 0.3, 0.4)
    z = signal("cgen", 40, seed)
    k = 0
    for i, op in enumerate(list(ops) + ["c3"]):
        what = f"{kind} after {ops[:i + 1]}"
        if op[0] == "c":
            n = int(op[1:])
            compare(out, f, ref, z[k:k + n], what)
            k += n
        elif op == "z2":
            compare(out, f, ref, numpy.array([0j, 1.0 + 0j]), what)
        elif op == "r4":
            compare(out, f, ref, z[k:k + 4].real.copy(), what, real=True)
        elif op == "rl3":
            compare(out, f, ref, [float(v) for v in z[k:k + 3].imag], what, real=True)
        elif op in ("reset", "reset0"):
            v = complex(z[i]) if op == "reset" else 0.0
            f.reset(v)
            ref.u = v / abs(v) if v else 1.0
        elif op[:4] == "rate":
            f.rate = ref.r = float(op[4:])
        else:
            v = float(op[4:])
            f.frequency = v
            ref.f = v
            if kind == "freq":
                ref.b = cmath.exp(1j * math.pi * v)
        out.transitions += 1
    out.traces += 1
