"""C19: complex and three-phase representations, by closed form, over words, signals and both conditions."""
import cmath
import itertools
import math

import numpy
from diamondback import ComplexTransform

from mc.core import Out
from mc.util import EXTREME, need, rejects, same, scale, signal

ID, LEVEL = "C19", "model_checking"
RULE = (
    "case = (length, signal, condition): complex to phases and back, phases to complex and back, offsets; every word of complex values on a grid of the bound; sequences of both directions. "
    "State = (direction, length, signal, condition). Nontrivial: a signal that is not zero."
)
ASSUMPTIONS = ["double precision, relative tolerance 1e-9"]
SIGNALS = ("gen", "cgen", "c0", "cmix", "int", "list", "ilist", "clist", "imp", "late", "c64", "i8", "u8", "f32", "alt", "big", "tiny", "nano", "mega", "cnano", "cthin", "view", "cview", *EXTREME)
GRID = (0, 1, -2, 1j, -1j, 1 + 1j, 3 - 2j)


def cases(tier, seed):
    quick = tier == "quick"
    for n in list(range(1, 17)) + [64, 100, 1000] if quick else list(range(1, 65)) + [100, 128, 1000, 4096]:
        for x in SIGNALS:
            for neutral in (True, False):
                yield dict(k="sig", n=n, x=x, neutral=neutral, seed=seed)
    for n in range(1, 5 if quick else 6):
        yield dict(k="words", n=n)
    for m in range(0, 8):
        yield dict(k="phases", m=m, top=3 if quick else 4)
    for n in (1, 2, 3, 5):
        yield dict(k="ops", n=n, depth=5 if quick else 7, seed=seed)
    for n in (1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 8193, 16385, 65536, 65537, 131073):
        for x in ("gen", "cgen"):
            for neutral in (True, False):
                yield dict(k="sig", n=n, x=x, neutral=neutral, seed=seed)
    yield dict(k="reject")


A = [math.pi * 2 * q / 3 for q in range(3)]
ALPHA = 3 ** -0.5 * cmath.exp(-1j * math.pi / 6)


def phases(z, neutral):
    """projections on 0, 120, 240 degrees of the complex value with neutral"""
    z = numpy.asarray(z, complex)
    if not neutral:
        z = z / ALPHA
    return numpy.array([(z * cmath.exp(-1j * a)).real for a in A])


def compl(p, neutral):
    p = numpy.asarray(p, float)
    z = 2.0 / 3.0 * sum(p[q] * cmath.exp(1j * A[q]) for q in range(3))
    return z if neutral else z * ALPHA


def both(out, x, neutral, what):
    v = numpy.asarray(x)
    v = v.astype(complex if numpy.iscomplexobj(v) else float)
    m = scale(v) * 4
    p = ComplexTransform.transform(x, neutral)
    same(p, phases(v, neutral), f"{what}: phases", ref=m)
    need(numpy.isrealobj(p), f"{what}: phases are not real")
    same(p.sum(0), numpy.zeros(len(v)), f"{what}: sum of phases", ref=m)
    z = ComplexTransform.transform(p, neutral)
    same(z, v + 0j, f"{what}: back", ref=m)
    if neutral and numpy.iscomplexobj(v) and 0.0 < scale(v.imag) < 1e-6 * scale(v):
        same(numpy.imag(z), v.imag, f"{what}: back, small imaginary part", ref=scale(v.imag), rtol=1e-5)
    other = ComplexTransform.transform(p, not neutral)
    same(other, (v + 0j) * (ALPHA if neutral else 1 / ALPHA), f"{what}: in the other condition", ref=m)
    for offset in (0.5, -3.0, 1e3, 2e7 * (scale(v) or 1.0), numpy.arange(len(v)) * 0.25):
        q = p + offset
        same(ComplexTransform.transform(q, neutral), v + 0j, f"{what}: with offset {offset}", ref=m + 4 * scale(q))
        same(ComplexTransform.transform(q.tolist(), neutral), v + 0j, f"{what}: with offset {offset}, as lists", ref=m + 4 * scale(q))
        for name, w in (("by columns", numpy.asfortranarray(q)), ("a view", numpy.repeat(q[::-1], 2, axis=1)[::-1, ::2])):
            same(ComplexTransform.transform(w, neutral), v + 0j, f"{what}: with offset {offset}, {name}", ref=m + 4 * scale(q))
        out.transitions += 4
    out.transitions += 3
    out.traces += 1


def run_case(spec):
    out = Out()
    k = spec["k"]
    if k == "sig":
        x = signal(spec["x"], spec["n"], spec["seed"])
        what = f"{spec['x']} of {spec['n']}, neutral {spec['neutral']}"
        both(out, x, spec["neutral"], what)
        if spec["neutral"]:
            same(ComplexTransform.transform(x), ComplexTransform.transform(x, True), f"{what}: by default", rtol=0.0)
        r = numpy.asarray(x).reshape(1, -1)
        same(ComplexTransform.transform(r, spec["neutral"]), phases(r[0], spec["neutral"]), f"{what}: as a row", ref=scale(x) * 4)
        # arbitrary three-phase signals: the sum is lost, nothing else
        p = numpy.array([signal("gen", spec["n"], spec["seed"] + q) for q in range(3)])
        z = ComplexTransform.transform(p, spec["neutral"])
        same(z, compl(p, spec["neutral"]), f"{what}: complex of phases")
        same(ComplexTransform.transform(z, spec["neutral"]), p - p.mean(0), f"{what}: balanced phases restored", ref=8.0)
        if spec["x"] == "int":
            same(ComplexTransform.transform(numpy.array([[5, 1, 2]] * 3).T[:, :3] * numpy.array([[1], [2], [3]]), spec["neutral"]),
                 compl(numpy.array([[5] * 3, [2] * 3, [6] * 3]), spec["neutral"]), f"{what}: integer phases", ref=30.0)
        out.state(spec["x"], spec["n"], spec["neutral"])
        out.transitions += 4
    elif k == "words":
        for w in itertools.product(GRID, repeat=spec["n"]):
            for neutral in (True, False):
                p = ComplexTransform.transform(list(w), neutral)
                same(p, phases(w, neutral), f"phases of {w}, neutral {neutral}", ref=16.0)
                same(ComplexTransform.transform(p, neutral), numpy.array(w) + 0j, f"phases of {w} and back, neutral {neutral}", ref=16.0)
                out.transitions += 2
                out.traces += 1
            out.state(w)
    elif k == "phases":
        values = (-2.0, 0.0, 1.0, 3.0)
        for n in range(1, 2 + (spec["m"] < 2)):
            for w in itertools.product(values, repeat=3 * n):
                p = numpy.array(w).reshape(3, n) * (spec["m"] + 1)
                for neutral in (True, False):
                    z = ComplexTransform.transform(p, neutral)
                    same(z, compl(p, neutral), f"complex of {p.tolist()}, neutral {neutral}", ref=64.0)
                    same(ComplexTransform.transform(z, neutral), p - p.mean(0), f"phases of complex of {p.tolist()}, neutral {neutral}", ref=64.0)
                    out.transitions += 2
                out.traces += 1
                out.state(spec["m"], w)
    elif k == "ops":
        # sequences of conversions: the value is tracked exactly
        z0 = signal("cgen", spec["n"], spec["seed"])
        for ops in itertools.product((True, False), repeat=spec["depth"]):
            z = numpy.array(z0)
            want = numpy.array(z0)
            for i in range(0, len(ops) - 1, 2):
                p = ComplexTransform.transform(z, ops[i])
                z = ComplexTransform.transform(p, ops[i + 1])
                want = want * (1.0 if ops[i] else 1 / ALPHA) * (1.0 if ops[i + 1] else ALPHA)
                same(z, want, f"conditions {ops[:i + 2]}", ref=scale(want) * 8)
                out.transitions += 2
                out.state(spec["n"], ops[:i + 2])
            out.traces += 1
    else:
        for x in ([], numpy.ones((2, 4)), numpy.ones((4, 4)), numpy.ones((5, 3)), numpy.ones((3, 0)), numpy.ones((1, 0)), numpy.ones((1, 3, 2)), numpy.ones((3, 3, 3))):
            for neutral in (True, False):
                rejects(lambda: ComplexTransform.transform(x, neutral), f"shape {numpy.shape(x)}")
                out.transitions += 1
        out.traces += 1
        out.state("reject")
    out.outcome = spec
    return out
