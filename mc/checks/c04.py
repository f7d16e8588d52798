"""C04: every FIR design of a bounded grid of constraints."""
import itertools

import numpy
from diamondback import FirFilter

from mc.core import Out
from mc.util import need, same

ID, LEVEL = "C04", "exploration"
RULE = (
    "case = (style, order, frequency, count, complement), executed for several gains and name spellings: all combinations of the grid. "
    "Nontrivial: a design was computed; outcomes are distinct coefficient arrays."
)
ASSUMPTIONS = ["frequencies between grid points behave as grid points"]
BATCH = 8


def cases(tier, seed):
    quick = tier == "quick"
    orders = (4, 6, 8, 12, 16, 20, 32, 40, 64, 100, 128, 256, 400) if quick else tuple(range(4, 65, 2)) + (80, 100, 128, 200, 256, 512, 1000)
    freqs = (0.04, 0.08, 0.1, 0.17, 0.25, 0.33, 0.4, 0.5, 0.62, 0.75, 0.85, 0.9, 0.95) if quick else tuple(round(0.02 + 0.03 * k, 3) for k in range(32))
    k = 0
    for style, order, f, c in itertools.product(FirFilter.STYLE, orders, freqs, (False, True)):
        if order * f < 4.0 or f > 0.95:
            continue
        k += 1
        counts = (1, 2, 3, 4, 5, 8) if not quick else ((1, 2, 3)[k % 3],) + ((1, 4 + k % 5) if order <= 20 else ())
        for count in sorted(set(counts)):
            yield dict(style=style, order=order, f=f, c=c, count=count)


def run_case(spec):
    out = Out()
    n, c, count = spec["order"], spec["c"], spec["count"]
    f = 1.0 - spec["f"] if c else spec["f"]
    what = f"{spec} frequency {f}"
    base = FirFilter(style=spec["style"], frequency=f, order=n, count=count, complement=c)
    b = base.b
    need(b.shape == (n + 1,), f"{what}: {b.shape} coefficients, expected {n + 1}")
    need(not numpy.iscomplexobj(b) and numpy.isfinite(b).all(), f"{what}: coefficients {b}")
    same(b, b[::-1], f"{what}: symmetry", rtol=1e-9)
    sign = (-1.0) ** numpy.arange(n + 1)
    same((b * sign).sum() if c else b.sum(), 1.0, f"{what}: gain at {'Nyquist' if c else 'zero'}", rtol=1e-9)
    h = abs((b * numpy.exp(-1j * numpy.pi * f * numpy.arange(n + 1))).sum()) ** count
    same(h, 2.0 ** -0.5, f"{what}: magnitude at the frequency", rtol=5e-5)
    # it is a low pass (high pass) filter: no more than the pass gain beyond the frequency
    g = numpy.linspace(0.0, 1.0, 65)
    m = abs(numpy.exp(-1j * numpy.pi * numpy.outer(g, numpy.arange(n + 1))) @ b)
    stop = m[g < f - 4.0 / n] if c else m[g > f + 4.0 / n]
    need(not len(stop) or stop.max() < 0.708, f"{what}: magnitude {stop.max() if len(stop) else 0} in the stop band")
    same(base.s, numpy.zeros(n + 1), f"{what}: initial state")
    name = (spec["style"].lower(), spec["style"].upper(), spec["style"])
    k = n // 2 + count
    for i, gain in enumerate((2.0, -0.5)):
        v = FirFilter(style=name[(k + i) % 3], frequency=f, order=n, count=count, complement=c, gain=gain)
        same(v.b, gain * b, f"{what}: gain {gain} style {name[(k + i) % 3]}", rtol=1e-9)
        out.transitions += 1
    if c:
        v = FirFilter(style=spec["style"], frequency=1.0 - f, order=n, count=count)
        same(b, v.b * sign, f"{what}: mirror of the design at {1.0 - f}", rtol=1e-6)
    out.evaluations = 3 + c
    out.outcome = b
    return out
