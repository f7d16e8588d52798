"""C10: complex exponential synthesis over words of frequencies, splits and phase assignments."""
import itertools
import math
from fractions import Fraction

import numpy
from diamondback import ComplexExponentialFilter

from mc.core import Out, Violation
from mc.util import compositions, cut, flat, flats, need, same, signal

ID, LEVEL = "C10", "model_checking"
RULE = (
    "case = (initial phase, first frequency): every word over an alphabet of dyadic frequencies (exact arithmetic, including both bounds) with every composition; "
    "or one sequence of calls and phase assignments; or a long stream. State = exact phase modulo 2. Nontrivial: the phase wraps or a second call is made."
)
ASSUMPTIONS = ["generic (not dyadic) frequencies are compared within 1e-7"]
F = (0.0, 0.25, -0.5, 1.0, -1.0, 0.75)
PHASE = (0.0, 0.5, -0.25, 1.0, -1.0, 0.75)
OPS = [("f", (0.25,)), ("f", (-1.0, 1.0)), ("f", (0.75, 0.75, 0.75)), ("f", (-0.5,)), ("p", 1.0), ("p", -1.0), ("p", 0.125), ("bad", 1.5), ("badf", (0.5, 2.0)), ("badf", ())]


def cases(tier, seed):
    m = 4 if tier == "quick" else 5
    for p in PHASE:
        for f in F:
            yield dict(k="words", p=p, first=f, m=m)
        for x in ("gen", "list", "one", "mone", "int", "ramp", "f32", "cx", "i8", "view"):
            yield dict(k="sig", p=p, x=x, n=9, seed=seed)
    depth = 4 if tier == "quick" else 5
    for head in itertools.product(range(len(OPS)), repeat=2):
        yield dict(k="ops", head=list(head), depth=depth)
    for f in (0.1, -0.3, 1.0, -1.0, 0.9999, 1e-4, 0.333333, "gen"):
        for parts in ([1] * 500, [5000], [4999, 1], [7] * 300, [1, 2000, 3, 1999], [256] * 16):
            yield dict(k="long", f=f, parts=parts, seed=seed)
            if isinstance(f, float):
                yield dict(k="long", f=f, parts=parts, seed=seed, narrow=True)
    for f in (2.0 ** -42, -(2.0 ** -44), 1e-14, 3e-11, 1e-16):
        for parts in ([20000], [1] * 2000 + [6000], [65537, 3], [3, 131073, 3]):
            yield dict(k="long", f=f, parts=parts, seed=seed, tol=1e-11)
    for fn, pairs in flats(tier == "quick"):
        for f in (0.125, 0.1, -0.3):
            yield dict(k="flat", f=f, n=fn, pairs=pairs, seed=seed)


def series(x, n, seed):
    if x == "one":
        return numpy.ones(n)
    if x == "mone":
        return -numpy.ones(n)
    if x == "int":
        return numpy.array([(-1) ** (i // 2) * (i % 2) for i in range(n)])
    if x == "i8":
        return numpy.array([(-1) ** (i // 2) * (i % 2) for i in range(n)], numpy.int8)
    if x == "ramp":
        return numpy.linspace(-1.0, 1.0, n)
    v = signal("gen", n, seed) / 1.1
    if x == "view":
        return (numpy.repeat(v, 2) / 2.0)[::-2]
    if x in ("f32", "cx"):
        return v.astype(numpy.float32 if x == "f32" else complex)
    return (list(v) if x == "list" else v)


def check(out, f, phase, x, what, tol=1e-9):
    """phase: exact; returns the next exact phase"""
    y = f.filter(x)
    want = []
    for v in numpy.asarray(x).tolist():
        want.append(complex(numpy.exp(1j * math.pi * float(wrap(phase)))))
        phase = phase + Fraction(v.real)
    same(y, want, what, ref=1.0, rtol=tol)
    same(abs(y), numpy.ones(len(want)), what + " magnitude", rtol=1e-12)
    need(-1.0 <= f.phase <= 1.0, f"{what}: phase {f.phase} out of [-1, 1]")
    d = float(wrap(Fraction(float(f.phase)) - phase))
    need(min(abs(d), 2.0 - abs(d)) <= tol, f"{what}: phase {f.phase}, expected {float(wrap(phase))} modulo 2")
    out.transitions += 1
    out.state(float(wrap(phase)))
    return phase


def wrap(p):
    p = p % 2
    return p - 2 if p > 1 else p


def run_case(spec):
    out = Out()
    k = spec["k"]
    if k == "words":
        for m in range(spec["m"]):
            for w in itertools.product(F, repeat=m):
                w = numpy.array([spec["first"]] + list(w))
                for parts in compositions(len(w)):
                    f, phase = ComplexExponentialFilter(phase=spec["p"]), Fraction(spec["p"])
                    for c in cut(w, parts):
                        phase = check(out, f, phase, c, f"phase {spec['p']} frequencies {list(w)} calls {parts}")
                    out.traces += 1
    elif k == "sig":
        x = series(spec["x"], spec["n"], spec["seed"])
        for parts in compositions(spec["n"]):
            f, phase = ComplexExponentialFilter(spec["p"]), Fraction(spec["p"])
            for c in cut(x, parts):
                phase = check(out, f, phase, c, f"phase {spec['p']} frequencies {list(x)} calls {parts}")
            out.traces += 1
    elif k == "flat":
        for x in flat(spec["n"], spec["pairs"]):
            x = x * spec["f"]
            f, phase = ComplexExponentialFilter(0.25), Fraction(1, 4)
            for c in (x, x[-3:]):
                phase = check(out, f, phase, c, f"frequencies {spec['f']} of {len(x)}, except {[(int(i), float(x[i])) for i in numpy.flatnonzero(x != spec['f'])]}", 1e-9)
            out.traces += 1
    elif k == "long":
        n = sum(spec["parts"])
        x = signal("gen", n, spec["seed"]) / 1.1 if spec["f"] == "gen" else numpy.full(n, spec["f"])
        if spec.get("narrow"):
            x = x.astype(numpy.float32)
        f, phase = ComplexExponentialFilter(), Fraction(0)
        for i, c in enumerate(cut(x, spec["parts"])):
            phase = check(out, f, phase, c, f"frequency {spec['f']} calls {spec['parts'][:4]}... call {i + 1}", spec.get("tol", 1e-7))
        out.traces = 1
    else:
        for tail in itertools.product(OPS, repeat=spec["depth"] - 2):
            ops = [OPS[i] for i in spec["head"]] + list(tail) + [("f", (0.5, 0.5))]
            f, phase = ComplexExponentialFilter(), Fraction(0)
            for i, (op, v) in enumerate(ops):
                what = f"after {ops[:i + 1]}"
                if op == "f":
                    phase = check(out, f, phase, list(v), what)
                elif op == "p":
                    f.phase = v
                    phase = Fraction(v)
                    need(f.phase == v, f"{what}: phase {f.phase}")
                else:
                    try:
                        if op == "bad":
                            f.phase = v
                        else:
                            f.filter(list(v))
                    except ValueError:
                        pass
                    else:
                        raise Violation(f"{what}: {v} accepted")
                out.transitions += 1
            out.traces += 1
    out.outcome = spec
    return out
