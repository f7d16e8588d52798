"""C06: response, delay and roots describe the measured behaviour of the filter, at the labels returned."""
import itertools

import numpy
from diamondback import ComplexBandpassFilter, ComplexFrequencyFilter, DerivativeFilter, FirFilter, GoertzelFilter, IirFilter, IntegralFilter

from mc.core import Out
from mc.checks.c01 import B, BC
from mc.util import need, same, scale, signal

ID, LEVEL = "C06", "exploration"
RULE = (
    "case = filter (coefficients) x length; every count of the bound is queried on it and compared with the transform of the impulse response measured "
    "with filter(). Nontrivial: response is not constant; outcomes are distinct responses."
)
ASSUMPTIONS = [
    "impulse responses of recursive filters are truncated where they fall below 1e-13",
    "delay is compared where the magnitude exceeds 1e-3 of its maximum, away from the edge samples the library smooths",
]
BATCH = 8
IIR = dict(
    ema=([0.0, 0.9], [0.1]), two=([0.0, 1.2, -0.5], [0.1, 0.2, 0.05]), neg=([0.0, -0.8], [1.0, 0.3]), longa=([0.0, 0.3, -0.2, 0.1, 0.25], [0.5, 0.25]),
    longb=([0.0, 0.4], [0.1, 0.2, 0.3, 0.4, -0.5]), onlyb=([], [0.5, 0.25]), zeroa=([0.0], [0.5, -0.5]), canc=([0.0, 0.5], [1.0, -0.5]),
    six=([0.0, 0.2, 0.1, -0.3, 0.15, 0.05, 0.1], [0.3, -0.1, 0.2, 0.4, -0.6, 0.5, 0.1]), gain=([0.0], [2.0]), intc=([0, 0.5], [1, 1]),
    c1=([0.0, 0.5j], [1.0]), c2=([0.0, 0.5, -0.25j], [1j, 0.5]), c4=([0.0, 0.4, -0.3, 0.1], [1.0, -0.7 + 0.2j]),
)


def cases(tier, seed):
    quick = tier == "quick"
    lengths = tuple(range(1, 18)) + (31, 32, 33, 64, 101, 255, 256, 1000, 1023) if quick else tuple(range(1, 66)) + (100, 101, 255, 256, 257, 511, 1000, 1023, 1024, 4095, 8192)
    for n in lengths:
        for name in list(B) + list(BC):
            if name not in ("zero",):
                yield dict(k="fir", name=name, n=n)
        for name in IIR:
            yield dict(k="iir", name=name, n=n)
        for style in ("Hann", "Kaiser"):
            yield dict(k="firs", name=style, n=n, c=n % 2 == 0)
        for style in IirFilter.STYLE:
            yield dict(k="iirs", name=style, n=n, c=n % 3 == 0)
        yield dict(k="der", name=[1 + n % 2, 2], n=n)
    for name in ("three", "one", "c3", "longa", "two", "c4", "goertzel", "bandpass", "tone"):
        for head in OPS:
            yield dict(k="ops", name=name, head=head, depth=3 if quick else 4)


OPS = ["r8", "r5", "d17", "z2", "setb", "seta", "touch", "f3", "reset", "own"]


def adapt(spec):
    name = spec["name"]
    if name == "goertzel":
        return GoertzelFilter([1.0, 0.5, 0.25], 0.3)
    if name == "bandpass":
        return ComplexBandpassFilter(0.3, 0.25)
    if name == "tone":
        return ComplexFrequencyFilter(0.3, 0.25)
    return IirFilter(a=IIR[name][0], b=IIR[name][1]) if name in IIR else FirFilter(b=B.get(name) or BC.get(name))


def history(out, spec, ops):
    """queries repeated while the coefficients change: each describes the coefficients of its moment"""
    f = adapt(spec)
    iir = isinstance(f, IirFilter)
    for i, op in enumerate(ops):
        if op == "setb":
            f.b = numpy.array(f.b) * (i + 2.0) + 0.25 * numpy.arange(len(f.b))
        elif op == "seta" and iir:
            f.a = numpy.array(f.a) * -0.5
        elif op == "touch":
            f.b[0] += 0.5 + i
        elif op == "own" and hasattr(f, "frequency"):
            f.frequency = -0.2 + 0.1 * i
        elif op == "f3":
            f.filter(numpy.array([1.0, 0.5j, -0.25]) if spec["name"] in ("bandpass", "tone", "c3", "c4", "goertzel") else [1.0, 0.5, -0.25])
        elif op == "reset" and not isinstance(f, GoertzelFilter):
            f.reset(0.5)
        elif op == "z2":
            p, z = f.roots(2)
            same(numpy.sort(abs(z)), numpy.sort(abs(numpy.tile(numpy.roots(f.b), 2))), f"{spec['name']} after {ops[:i + 1]}: zeros", ref=max(scale(z), 1.0), rtol=1e-6)
        if op[0] in "rd" and op[1:].isdigit():
            n = int(op[1:])
            grid = -1.0 + 2.0 * numpy.arange(n) / n
            b, a = numpy.array(f.b), numpy.concatenate(([1.0], -numpy.array(f.a)[1:])) if iir else numpy.ones(1)
            with numpy.errstate(all="ignore"):
                e = numpy.exp(-1j * numpy.pi * numpy.outer(grid, numpy.arange(max(len(a), len(b)))))
                P, Q = e[:, :len(b)] @ b, e[:, :len(a)] @ a
                ok = (abs(Q) > 1e-3) & (abs(P) > 1e-3 * scale(b))
                if op[0] == "r":
                    y, want = f.response(n)[0], P / Q
                else:
                    y = f.delay(n)[0]
                    want = (e[:, :len(b)] @ (b * numpy.arange(len(b))) / P - e[:, :len(a)] @ (a * numpy.arange(len(a))) / Q).real
                    ok[0] = False
                    if iir:
                        ok[:6] = ok[-6:] = False
            same(y[ok], want[ok], f"{spec['name']} after {ops[:i + 1]}", ref=max(scale(want[ok]), 1.0), rtol=1e-6)
        out.transitions += 1
        out.state(spec["name"], numpy.array(f.b), numpy.array(f.a) if iir else 0)
    out.traces += 1


def make(spec):
    k, name = spec["k"], spec["name"]
    if k == "fir":
        return FirFilter(b=B.get(name) or BC.get(name))
    if k == "iir":
        return IirFilter(a=IIR[name][0], b=IIR[name][1])
    if k == "firs":
        return FirFilter(style=name, frequency=0.35, order=16, complement=spec["c"], gain=1.5)
    if k == "iirs":
        f = 0.12 if name == "Bessel" else 0.3
        return IirFilter(style=name, frequency=1 - f if spec["c"] else f, order=3, complement=spec["c"], gain=0.5)
    return DerivativeFilter(*name)


def impulse(spec):
    f = make(spec)
    fir = not isinstance(f, IirFilter)
    m = len(f.b) if fir else 64
    while True:
        g = make(spec)
        cx = numpy.iscomplexobj(g.b) or (not fir and numpy.iscomplexobj(g.a))
        h = g.filter(numpy.array([1.0] + [0.0] * (m - 1), complex if cx else float))
        if fir or abs(h[-8:]).max() < 1e-13 * abs(h).max() or m > 4096:
            return h
        m *= 2


def run_case(spec):
    out = Out()
    if spec["k"] == "ops":
        for tail in itertools.product(OPS, repeat=spec["depth"] - 1):
            for last in ("r8", "d17", "z2"):
                history(out, spec, [spec["head"]] + list(tail) + [last])
        out.evaluations = out.traces
        out.outcome = [spec["name"], spec["head"], sorted(out.states)[:4]]
        return out
    h = impulse(spec)
    f = make(spec)
    b = numpy.array(f.b)
    a = numpy.array(f.a) if isinstance(f, IirFilter) else numpy.zeros(1)
    n = spec["n"]
    grid = -1.0 + 2.0 * numpy.arange(n) / n
    e = numpy.exp(-1j * numpy.pi * numpy.outer(grid, numpy.arange(len(h))))
    H = e @ h
    # group delay of the measured impulse response: Re( sum k h z^-k / sum h z^-k )
    with numpy.errstate(all="ignore"):
        tau = ((e @ (h * numpy.arange(len(h)))) / H).real
    big = abs(H) > 1e-3 * abs(e).max() * abs(h).sum() / max(len(h) ** 0.5, 1.0)
    fir = not isinstance(f, IirFilter)
    ok = big.copy()
    if fir and n > 2:
        ok[0] = False
    if not fir and n > 6:
        ok[:6] = ok[-6:] = False
    f.filter(signal("cgen" if numpy.iscomplexobj(b) or numpy.iscomplexobj(a) else "gen", 5, 3))
    s = numpy.array(f.s)
    for count in (1, 2, 3, 4, 5, 9) if n < 10 else (1, 2, 3, 4):
        what = f"{spec} count {count}"
        y, g = f.response(n, count)
        same(g, grid, f"{what}: frequency labels", ref=1.0, rtol=1e-12)
        same(y, H ** count, f"{what}: response", ref=abs(h).sum() ** count * count, rtol=1e-8)
        y, g = f.delay(n, count)
        same(g, grid, f"{what}: delay labels", ref=1.0, rtol=1e-12)
        need(y.shape == (n,), f"{what}: {y.shape} delays")
        same(y[ok], count * tau[ok], f"{what}: delay", ref=count * max(len(h), 8), rtol=1e-6)
        p, z = f.roots(count)
        for r, name in ((p, "poles"), (z, "zeros")):
            m = abs(numpy.asarray(r))
            need((numpy.diff(m) >= -1e-12).all(), f"{what}: {name} not in order of magnitude: {m}")
        need(len(p) == count * (len(b) - 1) or not fir, f"{what}: {len(p)} poles, expected {count * (len(b) - 1)}")
        k = numpy.flatnonzero(b)
        if len(k):
            # leading zeros of b are delays: the remaining polynomial has its degree in zeros
            need(len(z) == count * (len(b) - 1 - k[0]), f"{what}: {len(z)} zeros, expected {count * (len(b) - 1 - k[0])}")
            u = numpy.exp(1j * numpy.pi * grid)
            R = numpy.full(n, b[k[0]] ** count, complex)
            for v in z:
                R *= u - v
            for v in p:
                R /= u - v
            if not fir:
                R *= u ** (len(p) - count * (len(b) - 1))
            same(R, H ** count, f"{what}: product of roots", ref=abs(h).sum() ** count * count, rtol=1e-6)
        if not fir:
            q = numpy.roots(numpy.concatenate(([1.0], -a[1:])))
            want = numpy.sort(abs(numpy.tile(q, count)))
            same(numpy.sort(abs(p)), want, f"{what}: pole magnitudes", ref=1.0, rtol=1e-6)
        out.transitions += 3
    y, g = f.response(length=n)
    same(y, H, f"{spec}: response by default count", ref=abs(h).sum(), rtol=1e-8)
    same(f.b, b, f"{spec}: coefficients after queries")
    if not fir:
        same(f.a, a, f"{spec}: recursive coefficients after queries")
    same(f.s, s, f"{spec}: state after queries")
    out.evaluations = 12
    out.outcome = [spec["k"], spec["name"], H[:64]]
    return out
