"""C05: every IIR design of a bounded grid of constraints."""
import itertools

import numpy
from diamondback import IirFilter

from mc.core import Out
from mc.util import need, same

ID, LEVEL = "C05", "exploration"
RULE = (
    "case = (style, order, frequency, count, complement), executed for several gains and name spellings: all combinations of the grid. "
    "Nontrivial: a design was computed; outcomes are distinct coefficient arrays."
)
ASSUMPTIONS = ["frequencies between grid points behave as grid points"]
BATCH = 4


def cases(tier, seed):
    quick = tier == "quick"
    low = (0.05, 0.07, 0.1, 0.125, 0.15)
    high = (0.2, 0.25, 0.35, 0.45, 0.5, 0.6, 0.7, 0.8)
    if not quick:
        low = tuple(round(0.05 + 0.01 * k, 3) for k in range(11))
        high = tuple(round(0.17 + 0.03 * k, 3) for k in range(21)) + (0.8,)
    k = 0
    for style, order, f, c in itertools.product(IirFilter.STYLE, range(2, 7), low + high, (False, True)):
        if style == "Bessel" and f > 0.15:
            continue
        k += 1
        counts = (1, 2) if not quick or k % 3 == 0 else (1 + k % 2,)
        if style != "Bessel" and f <= 0.7:
            counts += (3, 4, 5, 6, 8) if not quick else (3 + k % 6,)
        for count in counts:
            yield dict(style=style, order=order, f=f, c=c, count=count)
    for style, order, f, c in itertools.product(("Butterworth", "Chebyshev"), (7, 8), low + high, (False, True)):
        if 0.15 <= f <= 0.7:
            k += 1
            for count in (1 + k % 3,) if quick else (1, 2, 3):
                yield dict(style=style, order=order, f=f, c=c, count=count)


def transfer(a, b, f):
    z = numpy.exp(-1j * numpy.pi * f * numpy.arange(len(b)))
    return (b * z).sum() / (1.0 - (a * z).sum())


def run_case(spec):
    out = Out()
    n, c, count = spec["order"], spec["c"], spec["count"]
    f = 1.0 - spec["f"] if c else spec["f"]
    what = f"{spec} frequency {f}"
    base = IirFilter(style=spec["style"], frequency=f, order=n, count=count, complement=c)
    a, b = base.a, base.b
    need(a.shape == (n + 1,) and b.shape == (n + 1,), f"{what}: shapes {a.shape} {b.shape}, expected {n + 1}")
    for v in (a, b):
        need(not numpy.iscomplexobj(v) and numpy.isfinite(v).all(), f"{what}: coefficients {v}")
    need(a[0] == 0.0, f"{what}: a[0] = {a[0]}")
    p = numpy.roots(numpy.concatenate(([1.0], -a[1:])))
    need(not len(p) or abs(p).max() < 1.0 - 1e-6, f"{what}: unstable, pole magnitudes {abs(p)}")
    same(transfer(a, b, 1.0 if c else 0.0), 1.0, f"{what}: gain at {'Nyquist' if c else 'zero'}", rtol=1e-7)
    same(abs(transfer(a, b, f)) ** count, 2.0 ** -0.5, f"{what}: magnitude at the frequency", rtol=1e-2)
    near = abs(transfer(a, b, f + (0.04 if not c else -0.04)))
    need(near ** count < 2.0 ** -0.5, f"{what}: magnitude {near} beyond the frequency")
    same(abs(transfer(a, b, 0.0 if c else 1.0)), 0.0, f"{what}: gain at {'zero' if c else 'Nyquist'}", ref=1.0, rtol=1e-3)
    name = (spec["style"].lower(), spec["style"].upper(), spec["style"])
    gain = (2.0, -0.5, 10.0)[(n + count) % 3]
    v = IirFilter(style=name[(n + int(100 * spec["f"])) % 3], frequency=f, order=n, count=count, complement=c, gain=gain)
    same(v.a, a, f"{what}: recursive coefficients with gain {gain}", rtol=1e-9)
    same(v.b, gain * b, f"{what}: gain {gain}", rtol=1e-9)
    sign = (-1.0) ** numpy.arange(n + 1)
    if c:
        v = IirFilter(style=spec["style"], frequency=1.0 - f, order=n, count=count)
        same(a, v.a * sign, f"{what}: mirror of the design at {1.0 - f} (a)", rtol=1e-6)
        same(b, v.b * sign, f"{what}: mirror of the design at {1.0 - f} (b)", rtol=1e-6)
    same(base.s, numpy.zeros(n + 1), f"{what}: initial state")
    out.evaluations = 2 + c
    out.outcome = [a, b]
    return out
