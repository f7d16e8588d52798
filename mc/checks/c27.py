"""C27: every interleaving, up to a preemption bound, of threads which use separate instances, stateless operations or one fitted model."""
import copy
import itertools

import numpy

from mc import sched

import sys

if "diamondback" not in sys.modules:
    sched.install()

from diamondback import (
    ComplexTransform,
    FourierTransform,
    GaussianMixtureModel,
    GaussianModel,
    PolyphaseRateFilter,
    PsdTransform,
    Serial,
    WaveletTransform,
    WindowFilter,
    ZTransform,
)

from mc import zoo
from mc.core import Out, Violation
from mc.fork import isolated
from mc.util import generic, signal

ID, LEVEL = "C27", "model_checking"
RULE = (
    "case = (programs of two or three threads, granularity, part): every schedule of at most the stated number of preemptions, each in a process of its own; threads may be preempted at every line (or instruction) "
    "of the library, at its first executions of it. What every thread observes has to be, bit for bit, what it observes alone. State = (scenario, schedule prefix explored to completion). Nontrivial: two or more schedules."
)
ASSUMPTIONS = [
    "threads are preempted at lines or instructions of the library, not within numpy, scipy and scikit-learn",
    "more preemptions than the bound, later iterations of loops, or longer programs, are not explored",
    "the random generator of numpy, which a mixture model uses for an initial guess, is shared by threads, and has no effect on models of order 1",
]
FILES = ("/diamondback/",)
BATCH, CASE_SECONDS = 1, 3000
VALUES = [dict(a=[1, 2.5, None], b="text"), numpy.arange(12.0).reshape(3, 4), list(range(50))]


def p_zoo(name, ops, o=None, start=0):
    def f(shared, o=o):
        o = zoo.ZOO[name][0]() if o is None else o
        r = zoo.run(o, name, ops, start)
        return r + [zoo.look(o, name)]

    return f


def p_serial(i, j):
    def f(shared):
        r = []
        for compress in (False, True):
            t = Serial.encode(VALUES[i], compress)
            r += [Serial.decode(t), t if not compress else len(Serial.code(t))]
        return r + [Serial.code("text %d" % i)]

    return f


def p_complex(i, j):
    def f(shared):
        x = generic(5 + i, 12).reshape(3, 4)
        y = ComplexTransform.transform(x, bool(j % 2))
        return [y, ComplexTransform.transform(y, bool(j % 2))]

    return f


def p_fourier(i, j):
    def f(shared):
        b = WindowFilter("Hann" if i else "Kaiser", 7 + j).b
        x = generic(5 + i, len(b))
        y, g = FourierTransform.transform(x, b)
        return [y, g] + list(FourierTransform.transform(y, b, True))

    return f


def p_psd(i, j):
    def f(shared):
        return list(PsdTransform.transform(generic(5 + i, 20), WindowFilter("Hann", 7 + j).b, 3 + j, bool(j)))

    return f


def p_z(i, j):
    def f(shared):
        return list(ZTransform.transform([1.0, 2.0 + i, 1.5 + i], [1.0, 0.5 + i], 8.0 + i, not j % 2))

    return f


def p_wave(i, j):
    def f(shared):
        w = shared if shared is not None else WaveletTransform(("Haar", "Daubechies", "Symlet")[j], (1, 3, 4)[j])
        x = generic(5 + i, 16)
        y = w.transform(x, 1 + j)
        return [y, w.transform(y, 1 + j, True), w.transform(x.reshape(4, 4), 1)]

    return f


def p_polyphase(i):
    def f(shared):
        o = PolyphaseRateFilter(rate=(0.7, 1.5, 3.0)[i])
        return [o.filter(generic(5 + i, 4)), numpy.array(o.b), o.filter(generic(6 + i, 2))]

    return f


def p_predict(i, j):
    def f(shared):
        return [shared.predict(generic(5 + i, 4 + 2 * j).reshape(2 + j, 2) * 2)]

    return f


def fit(cls, **kw):
    def f():
        m = cls(regularize=0.2, **kw)
        numpy.random.seed(3)
        x = numpy.concatenate([generic(1, 16).reshape(8, 2), generic(2, 16).reshape(8, 2) + 3.0])
        m.fit(x, numpy.array([1] * 8 + [-2] * 8))
        return m

    return f


def design():
    """the design of the bank, which takes most of the time of an execution, is done once: threads receive copies"""
    m = sys.modules[PolyphaseRateFilter.__module__]
    real, made = getattr(m, "FirFilter", None), {}
    if real is None or made_designs:
        return
    made_designs.append(made)

    class FirFilter(real):
        def __new__(cls, *a, **kw):
            k = repr((a, sorted(kw.items())))
            if k not in made:
                made[k] = real(*a, **kw)
            return copy.deepcopy(made[k])

    m.FirFilter = FirFilter


made_designs = []


def warm(spec):
    """in the process of the case: designs without building the bank"""
    design()
    m = sys.modules[PolyphaseRateFilter.__module__]
    if hasattr(m, "FirFilter"):
        rr, cc = (4, 3) if spec["small"] else (256, 15)
        m.FirFilter(style="Hann", frequency=0.85 / rr, order=cc * rr - 1)


def small_bank():
    # a bank of the documented attribute which is built on demand is made small; any other is left as it is
    if isinstance(getattr(PolyphaseRateFilter, "B", None), numpy.ndarray) and not numpy.any(PolyphaseRateFilter.B):
        PolyphaseRateFilter.B = numpy.zeros((4, 3))


STATELESS = dict(serial=p_serial, complex=p_complex, fourier=p_fourier, psd=p_psd, z=p_z, wave=p_wave)
SHARED = {
    "gaussian": (fit(GaussianModel), p_predict),
    "mixture": (fit(GaussianMixtureModel, order=2, index=5), p_predict),
    "wavelet": (lambda: WaveletTransform("Coiflet", 5), p_wave),
}


def programs(spec):
    """(setup of shared object or None, programs)"""
    k = spec["k"]
    if k == "zoo":
        # each thread has data of its own, of the same shape
        return None, [p_zoo(n, ops, zoo.ZOO[n][0]() if spec["made"] else None, 7 * t) for t, (n, ops) in enumerate(spec["threads"])]
    if k == "stateless":
        return None, [STATELESS[n](i, 0 if spec.get("same") else i) for i, n in enumerate(spec["threads"])]
    if k == "shared":
        make, p = SHARED[spec["name"]]
        return make, [p(i, 0 if spec.get("same") else i) for i in range(spec["n"])]
    if k == "bank":
        return (small_bank if spec["small"] else None), [p_polyphase(i) for i in range(spec["n"])]
    raise KeyError(k)


DESIGNED = ("FirFilter designed", "IirFilter designed")          # of long constructors


def scenarios(tier):
    quick = tier == "quick"
    v = 2 if quick else 8

    def zoo_(threads, made, bound=1, opcodes=False, parts=1, visits=v):
        return dict(k="zoo", threads=threads, made=made, bound=bound, opcodes=opcodes, parts=parts, visits=visits)

    for name in zoo.ZOO:
        n = len(zoo.ZOO[name][1])
        if name == "PolyphaseRateFilter":
            continue
        for i, j in itertools.combinations_with_replacement(range(n), 2):
            yield zoo_([[name, [i]], [name, [j]]], name in DESIGNED, parts=2)
            if not quick:
                yield zoo_([[name, [i, j]], [name, [j, i]]], True, parts=4)
                yield zoo_([[name, [i]], [name, [j]]], True, bound=2, parts=8, visits=2)
        if name in DESIGNED:
            yield zoo_([[name, []], [name, [0]]], False, parts=8, visits=2)
        elif not quick:
            yield zoo_([[name, [0]], [name, [0]]], False, opcodes=True, parts=4, visits=3)
    # classes which share code
    kin = ["FirFilter", "IirFilter", "DerivativeFilter", "IntegralFilter", "RankFilter", "ComplexFrequencyFilter", "GoertzelFilter", "ComplexBandpassFilter"]
    for a, b in itertools.combinations(kin, 2):
        yield zoo_([[a, [0]], [b, [0]]], a in DESIGNED or b in DESIGNED)
    for a, b in itertools.combinations_with_replacement(STATELESS, 2):
        yield dict(k="stateless", threads=[a, b], bound=1 if quick else 2, opcodes=False, parts=2 if quick else 8, visits=v if quick else 3)
        if a == b and a != "serial":
            yield dict(k="stateless", threads=[a, b], same=True, bound=1 if quick else 2, opcodes=False, parts=2 if quick else 8, visits=v if quick else 3)
        if quick and a == b and a != "serial":
            yield dict(k="stateless", threads=[a, b], same=True, bound=1, opcodes=True, parts=8 if a == "wave" else 2, visits=1)
        if not quick and a == b:
            yield dict(k="stateless", threads=[a, b], same=True, bound=1, opcodes=True, parts=8, visits=2)
            yield dict(k="stateless", threads=[a, b], bound=1, opcodes=True, parts=8, visits=2)
    for n in SHARED:
        yield dict(k="shared", name=n, n=2, bound=2 if not quick else 1, opcodes=False, parts=4, visits=v)
        yield dict(k="shared", name=n, n=2, same=True, bound=2 if not quick else 1, opcodes=False, parts=4, visits=v)
        yield dict(k="shared", name=n, n=2, bound=1, opcodes=True, parts=8, visits=1 if quick else 3)
        if not quick:
            yield dict(k="shared", name=n, n=3, bound=1, opcodes=False, parts=4, visits=4)
    yield dict(k="bank", small=True, n=2, bound=2 if quick else 3, opcodes=False, parts=8, focus=True, visits=2 if quick else 3)
    yield dict(k="bank", small=True, n=2, bound=1, opcodes=True, parts=4, focus=True, visits=2)
    yield dict(k="bank", small=True, n=3, bound=1 if quick else 2, opcodes=False, parts=8, focus=True, visits=2)
    yield dict(k="bank", small=False, n=2, bound=1, opcodes=False, parts=8, focus=True, visits=v)


def cases(tier, seed):
    for s in scenarios(tier):
        for i in range(s["parts"]):
            yield dict(s, part=[i, s["parts"]], seconds=60 if tier == "quick" else 600)


def alone(made, t):
    make, programs_ = made
    shared = make() if make else None
    return programs_[t](shared)


def files(spec):
    return ("/diamondback/filters/polyphase",) if spec.get("focus") else FILES


def execution(spec, made, prefix):
    make, programs_ = made
    shared = make() if make else None
    res = [None] * len(programs_)

    def body(t, p):
        def f(s):
            try:
                res[t] = ("ok", p(shared))
            except Exception as ex:
                res[t] = ("exception", f"raised {type(ex).__name__}: {ex}")

        return f

    s = sched.Scheduler([body(t, p) for t, p in enumerate(programs_)], prefix, files(spec), spec["opcodes"], limit=2000000, visits=spec["visits"]).run()
    if s.deadlock:
        raise Violation(f"deadlock of threads {s.deadlock}: schedule {list(prefix)}")
    return s.decisions, s.points, res


def run_case(spec):
    out = Out()
    if spec["k"] == "bank":
        warm(spec)
    sched.codes(files(spec))
    made = programs(spec)       # instances made here are copied by every process
    want = [isolated(alone, made, t) for t in range(len(made[1]))]

    def run(prefix):
        decisions, points, res = isolated(execution, spec, made, prefix, seconds=120)
        for t, r in enumerate(res):
            if r[0] != "ok" or not equal(r[1], want[t]):
                raise Violation(f"thread {t} of {spec} observes {r[1]}, alone {want[t]}: schedule {list(prefix)[-12:]} of {len(prefix)} decisions")
        out.transitions += points
        out.traces += 1
        out.state(spec["k"], spec.get("threads") or spec.get("name"), spec.get("made"), spec.get("same"), spec["opcodes"], spec["bound"], spec["visits"], prefix)
        return decisions

    n, done = sched.explore(run, spec["bound"], spec["part"], spec["seconds"])
    if done < 0:
        out.trivial = True      # nothing was explored within the time: reported as incomplete
    out.incomplete = done < spec["bound"]
    out.evaluations = n
    out.outcome = [spec["k"], spec.get("threads") or spec.get("name"), spec["opcodes"], spec["bound"], spec.get("made"), spec.get("same"), spec["part"], done]
    out.trivial = out.trivial or n < 2
    return out


def equal(a, b):
    return zoo.equal(a, b) if not isinstance(a, dict) else isinstance(b, dict) and list(a) == list(b) and all(equal(a[k], b[k]) for k in a)


def evidence(tier):
    bounds = {}
    for s in scenarios(tier):
        bounds.setdefault(f"{s['k']}, {len(s.get('threads', '')) or s.get('n')} threads, {'instructions' if s['opcodes'] else 'lines'}", set()).add(s["bound"])
    return dict(preemption_bounds={k: sorted(v) for k, v in bounds.items()}, schedules_counted_as="traces_validated_against_impl")
