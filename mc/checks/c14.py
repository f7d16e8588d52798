"""C14: polyphase rate conversion: count, branch selection, split invariance, phase restarts."""
import itertools
import math

import numpy
from diamondback import PolyphaseRateFilter

from mc.core import Out, Violation
from mc.util import EXTREME, compositions, cut, need, same, scale, signal

ID, LEVEL = "C14", "model_checking"
RULE = (
    "case = rate: every composition of a stream into calls; long streams with chunk pairs; one sequence of operations (calls, rate changes, repeated rates, resets, rejected rates); bank and sinusoid "
    "checks. State = (rate, sampling phase, samples consumed). Nontrivial: an output is due."
)
ASSUMPTIONS = [
    "an output within 1e-6 of a boundary between two branches or samples may be taken on either side (accumulated rounding)",
    "real signals in double precision, integers or lists",
    "sinusoids up to 0.15 of the lower Nyquist frequency are reproduced within 3 percent",
]
RATES = (1.0, 2.0, 0.5, 0.25, 1 / 3, 0.3, 0.7, 0.75, 0.9, 0.99, 1.01, 1.25, 1.5, 1 / math.pi, math.pi, math.e, 3.0, 4.0, 7.5, 0.1, 0.07, 0.01, 16.0, 100.3, 255.9, 256.0)
OPS = [("f", 1), ("f", 2), ("f", 4), ("r", 0.4), ("r", 1.0), ("r", 2.5), ("same", None), ("near", 1.004), ("near", 0.9998), ("reset", 3.0), ("bad", -0.1), ("bad", 256.5), ("badf", 0)]


def cases(tier, seed):
    quick = tier == "quick"
    rates = RATES if quick else tuple(sorted(set(RATES) | {round(0.06 * k, 2) for k in range(1, 80)}))
    yield dict(k="bank")
    for r in rates:
        for x in ("gen", "int", "list", "ilist", "imp", "late", "i8", "u8", "f32", "nano", "mega", "view", *EXTREME):
            yield dict(k="split", r=r, x=x, n=(8 if r < 20 else 5) if quick else (11 if r < 20 else 6), seed=seed)
        if r < 20:
            for c1, c2 in itertools.product((1, 2, 3, 14, 15, 16, 17, 50, 331), repeat=2):
                yield dict(k="chunk", r=r, parts=[c1, c2, 20], seed=seed)
        for f in (0.02, 0.07, 0.15):
            yield dict(k="sine", r=r, f=f)
        yield dict(k="count", r=r)
    for r in (0.3, 0.75, 1.0, 1.5, 2.7):
        for big in (1025, 4097, 16385, 65537):
            yield dict(k="chunk", r=r, parts=[big, 20], seed=seed)
            yield dict(k="chunk", r=r, parts=[3, big, 20], seed=seed)
    depth = 4 if quick else 5
    for head in itertools.product(range(len(OPS)), repeat=2):
        yield dict(k="ops", head=list(head), depth=depth, seed=seed)


class Ref(object):
    """Outputs due at positions k/rate of the stream since the phase was restarted."""

    def __init__(self, bank, rate):
        self.bank, self.rate = bank, rate
        self.w = [0.0] * bank.shape[1]
        self.n = 0          # samples since restart
        self.k = 0          # outputs since restart
        self.m = 0.0

    def restart(self, rate):
        self.rate, self.n, self.k = rate, 0, 0

    def filter(self, x, y, what):
        """checks y against the outputs due"""
        rr = self.bank.shape[0]
        y = list(y)
        j = 0
        for v in numpy.asarray(x).tolist():
            prev = list(self.w)
            self.w = [v] + self.w[:-1]
            self.m = max(self.m, abs(v), max(abs(u) for u in self.w))
            while True:
                p = self.k / self.rate
                eps = 1e-9 * (1.0 + p)
                if p >= self.n + 1 + eps:
                    break
                if p > self.n + 1 - eps and j >= len(y):
                    break       # on the boundary: it may be due with the next sample
                frac = (p - self.n) * rr
                options = []
                for q in {math.floor(frac + 0.5 - 1e-5), math.floor(frac + 0.5 + 1e-5)}:
                    options.append((self.bank[min(max(q, 0), rr - 1)], self.w))
                if frac < 1e-5:
                    options.append((self.bank[rr - 1], prev))
                if j >= len(y):
                    raise Violation(f"{what}: {len(y)} outputs, another is due at position {p} after sample {self.n}")
                want = [float(numpy.dot(b, w)) for b, w in options]
                if p > self.n + 1 - eps and not any(abs(y[j] - u) <= 1e-9 * (self.m or 1.0) * 3 for u in want):
                    break
                if not any(abs(y[j] - u) <= 1e-9 * (self.m or 1.0) * 3 for u in want):
                    raise Violation(f"{what}: output {j} at position {p} is {y[j]}, expected {want[0]}")
                j += 1
                self.k += 1
            self.n += 1
        need(j == len(y), f"{what}: {len(y)} outputs, only {j} are due")


def run_case(spec):
    out = Out()
    k = spec["k"]
    if k == "bank":
        f = PolyphaseRateFilter(rate=1.0)
        b = numpy.array(f.b)
        need(b.ndim == 2 and numpy.isfinite(b).all(), f"bank of shape {b.shape}")
        need(b.shape == (256, 15), f"bank of shape {b.shape}, documented 256 branches of 15 coefficients")
        same(b.sum(1), numpy.ones(len(b)), "sums of branches", rtol=1e-9)
        # branch r delays by D - r / 256: group delay at zero frequency decreases evenly
        d = (b * numpy.arange(b.shape[1])).sum(1)
        same(numpy.diff(d), -numpy.ones(len(b) - 1) / len(b), "steps of delay between branches", ref=1.0 / len(b), rtol=2e-2)
        out.state("bank")
        out.traces = out.transitions = 1
    elif k == "ops":
        bank = numpy.array(PolyphaseRateFilter(rate=1.0).b)
        for tail in itertools.product(OPS, repeat=spec["depth"] - 2):
            ops = [OPS[i] for i in spec["head"]] + list(tail) + [("f", 4)]
            f, ref = PolyphaseRateFilter(rate=0.75), Ref(bank, 0.75)
            x = signal("gen", 40, spec["seed"])
            p = 0
            for i, (op, v) in enumerate(ops):
                what = f"rate {ref.rate} after {ops[:i + 1]}"
                if op == "f":
                    ref.filter(x[p:p + v], f.filter(x[p:p + v]), what)
                    p += v
                elif op == "r":
                    f.rate = v
                    if v != ref.rate:
                        ref.restart(v)
                elif op == "near":
                    f.rate = ref.rate * v
                    ref.restart(ref.rate * v)
                elif op == "same":
                    f.rate = ref.rate
                elif op == "reset":
                    f.reset(v)
                    ref.w = [v] * len(ref.w)
                elif op == "bad":
                    try:
                        f.rate = v
                    except ValueError:
                        pass
                    else:
                        raise Violation(f"{what}: rate {v} accepted")
                else:
                    try:
                        f.filter([])
                    except ValueError:
                        pass
                    else:
                        raise Violation(f"{what}: empty signal accepted")
                need(f.rate == ref.rate, f"{what}: rate {f.rate}, expected {ref.rate}")
                out.transitions += 1
                out.state(ref.rate, ref.n, ref.k, round(sum(ref.w), 6))
            out.traces += 1
    elif k == "sine":
        r, f0 = spec["r"], spec["f"] * min(1.0, spec["r"])
        n = min(max(40, int(400 / r)), 4000) if r < 20 else 40
        f = PolyphaseRateFilter(rate=r)
        y = numpy.concatenate([f.filter(c) for c in cut(numpy.cos(math.pi * f0 * numpy.arange(n)), [n // 2, n - n // 2])])
        t = numpy.arange(len(y)) / r
        keep = t > 16
        A = numpy.stack([numpy.cos(math.pi * f0 * t[keep]), numpy.sin(math.pi * f0 * t[keep])], 1)
        c, *_ = numpy.linalg.lstsq(A, y[keep], rcond=None)
        delay = math.atan2(c[1], c[0]) / (math.pi * f0)
        need(keep.sum() >= 3, f"rate {r}: {keep.sum()} outputs")
        same(math.hypot(*c), 1.0, f"rate {r} frequency {f0}: gain of a sinusoid", rtol=3e-2)
        same(A @ c, y[keep], f"rate {r} frequency {f0}: sinusoid with one constant delay", ref=1.0, rtol=3e-2)
        b = numpy.array(f.b)
        d0 = float((b[0] * numpy.arange(b.shape[1])).sum())
        period = 2.0 / f0
        wrapped = (delay - d0 + period / 2) % period - period / 2      # the phase determines it modulo a period
        same(wrapped, 0.0, f"rate {r} frequency {f0}: delay beyond {d0} of a sinusoid", ref=1.0, rtol=5e-2)
        out.state(r, f0)
        out.traces = 1
        out.transitions = 2
    elif k == "count":
        r = spec["r"]
        for step in (1, 3, 10):
            f = PolyphaseRateFilter(rate=r)
            total, n = 0, 0
            for _ in range(int(min(300, 3000 / r / step)) + 2):
                total += len(f.filter(numpy.ones(step)))
                n += step
                need(math.ceil(n * r - 1e-6) <= total <= math.ceil(n * r + 1e-6), f"rate {r}: {total} outputs after {n} samples in calls of {step}, expected {math.ceil(n * r - 1e-6)}")
                out.transitions += 1
                out.state(r, n)
            out.traces += 1
    else:
        bank = numpy.array(PolyphaseRateFilter(rate=1.0).b)
        n = spec["n"] if k == "split" else sum(spec["parts"])
        x = signal(spec.get("x", "gen"), n, spec["seed"])
        for parts in compositions(n) if k == "split" else [spec["parts"]]:
            f, ref = PolyphaseRateFilter(rate=spec["r"]), Ref(bank, spec["r"])
            for i, c in enumerate(cut(x, parts)):
                ref.filter(c, f.filter(c), f"rate {spec['r']} signal {spec.get('x')} calls {parts} call {i + 1}")
                out.transitions += 1
                out.state(spec["r"], ref.n, ref.k, spec.get("x"))
            out.traces += 1
    out.outcome = spec
    return out


def prepare(tier, seed):
    PolyphaseRateFilter(rate=1.0)   # the bank is built once, before the workers are forked
