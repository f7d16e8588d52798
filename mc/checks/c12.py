"""C12: Goertzel output against the windowed transform of each window, over splits and frequency changes."""
import itertools
import math

import numpy
from diamondback import GoertzelFilter, WindowFilter

from mc.core import Out
from mc.util import EXTREME, compositions, cut, generic, need, same, scale, signal

ID, LEVEL = "C12", "model_checking"
RULE = (
    "case = (window, frequency, signal) with every composition of a stream of about two windows and a half into calls; long windows with chunk pairs; sequences of windows with frequency changes "
    "between them. State = (window, frequency, position in the window, content). Nontrivial: at least one output or a retained partial window."
)
ASSUMPTIONS = ["float64 or integer real signals and complex128 signals, the same kind throughout a stream", "rounding up to 1e-7 relative to the sum of magnitudes of a window"]
FREQ = (0.0, 0.1, -0.3, 0.5, 1.0, -1.0, 0.77)
WIN = dict(one=[1.0], half=[0.5], two=[1.0, 2.0], three=[0.25, 1.0, 0.5], hann4=[0.0, 0.75, 0.75, 0.0], int4=[1, 2, 2, 1], neg=[1.0, -1.0, 0.5], five=[0.3, 0.0, -0.2, 1.0, 0.7])


def window(name):
    if name in WIN:
        return WIN[name]
    style, n = name.split(":")
    return numpy.ones(int(n)) if style == "Rect" else WindowFilter(style, int(n) - 1).b


def cases(tier, seed):
    for w in WIN:
        n = len(WIN[w])
        total = min(2 * n + n // 2 + 1, 9 if tier == "quick" else 12)
        for f in FREQ:
            for x in ("gen", "cgen", "int", "list", "clist", "c64", "i8", "u8", "f32", "ilist", "c0", "late", "nano", "mega", "cthin", "cnano", "view", "cview", *EXTREME):
                yield dict(k="split", w=w, f=f, x=x, n=total, form="list" if (n + len(x)) % 2 else "array", seed=seed)
    for w in ("Hann:7", "Hann:16", "Kaiser:17", "Hamming:31", "Rect:32", "Blackman:64", "Hann:128", "Rect:33"):
        n = int(w.split(":")[1])
        for f in (0.0, 0.1, -0.45, 1.0, 0.5):
            for x in ("gen", "cgen", "c64", "big", "mega"):
                for c1, c2 in itertools.product((1, n - 1, n, n + 1, 2 * n, 2 * n + 3, 5 * n), repeat=2):
                    yield dict(k="chunk", w=w, f=f, x=x, parts=[c1, c2, n], seed=seed)
    for w in ("three", "Hann:16", "Rect:33"):
        for f in (0.1, -0.45):
            for x in ("gen", "cgen"):
                for big in (4097, 16385, 65537, 131073):
                    for parts in ([big, 40], [3, big, 40]):
                        yield dict(k="chunk", w=w, f=f, x=x, parts=parts, seed=seed)
    for w in ("two", "three", "hann4", "Hann:16"):
        for freqs in itertools.product(FREQ, repeat=3 if tier == "quick" else 4):
            yield dict(k="change", w=w, freqs=list(freqs), seed=seed)
    for w in ("two", "three", "five", "Hann:7"):
        for freqs in itertools.product(FREQ, repeat=3):
            if freqs[0] != freqs[2]:
                yield dict(k="within", w=w, freqs=list(freqs), seed=seed)
    for w in ("three", "Hann:16", "Rect:33", "Hann:128"):
        for f in (0.1, -0.45, 0.5, 0.0, 0.77):
            for moves in itertools.product(range(len(NEAR)), repeat=2):
                # changes to frequencies next to the one before
                a, b = (f + NEAR[moves[0]], f + NEAR[moves[0]] + NEAR[moves[1]])
                yield dict(k="change", w=w, freqs=[f, a, b, f], rtol=1e-10, seed=seed)


NEAR = (1e-3, -1e-4, 1e-5, -4e-6, 1e-6, -1e-7, 1e-8)


def want(w, f, x):
    w = numpy.asarray(w, float)
    n = len(w)
    u = (1.0 if numpy.iscomplexobj(x) else 2.0) / n
    return u * sum(w[i] * x[i] * numpy.exp(1j * math.pi * f * (n - 1 - i)) for i in range(n))


def run_case(spec):
    out = Out()
    w = window(spec["w"])
    n = len(w)
    if spec["k"] == "change":
        for x in ("gen", "cgen"):
            v = signal(x, n * len(spec["freqs"]), spec["seed"])
            for step in (n, 1, max(n - 1, 1)):
                g = GoertzelFilter(b=w, frequency=0.2)
                for i, f in enumerate(spec["freqs"]):
                    g.frequency = f
                    need(g.frequency == f, f"window {spec['w']}: frequency {g.frequency} after assigning {f}")
                    c = v[i * n:(i + 1) * n]
                    y = numpy.concatenate([g.filter(c[j:j + step]) for j in range(0, n, step)])
                    same(y, [want(w, f, c)], f"window {spec['w']} frequencies {spec['freqs'][:i + 1]}, calls of {step}", ref=scale(w) * scale(c) * 4, rtol=spec.get("rtol", 1e-8))
                    out.transitions += 1
                    out.state(spec["w"], f, x, i)
                out.traces += 1
        out.outcome = spec
        return out
    if spec["k"] == "within":
        # a frequency assigned within a window: outputs are due as before, and the windows which follow are of the new frequency
        for x in ("gen", "cgen"):
            v = signal(x, 4 * n, spec["seed"])
            for at in range(4 * n):
                for last in sorted({at, n - 1, n, 2 * n - 1} - set(range(at))):
                    for step in (1, n, n + 1, 4 * n):
                        g = GoertzelFilter(b=w, frequency=spec["freqs"][0])
                        y, due = [], 0
                        for a, b, f in ((0, at, spec["freqs"][1]), (at, last, spec["freqs"][2]), (last, 4 * n, None)):
                            for i in range(a, b, step):
                                c = v[i:min(i + step, b)]
                                y += g.filter(c).tolist()
                                due += len(c)
                                need(len(y) == due // n, f"window {spec['w']} frequencies {spec['freqs']} assigned after {at} and {last} samples, calls of {step}: {len(y)} outputs after {due} samples")
                            if f is not None:
                                g.frequency = f
                        k = -(-last // n)
                        same(numpy.array(y[k:]), [want(w, spec["freqs"][2], v[i * n:(i + 1) * n]) for i in range(k, 4)],
                             f"window {spec['w']} frequencies {spec['freqs']} assigned after {at} and {last} samples, calls of {step}", ref=scale(w) * scale(v) * 4, rtol=1e-8)
                        out.transitions += 1
                        out.state(spec["w"], spec["freqs"], at, last, x)
        out.traces += 1
        out.outcome = spec
        return out
    f = spec["f"]
    if spec["k"] == "split":
        b = list(w) if spec["form"] == "list" else numpy.array(w)
        x, splits = signal(spec["x"], spec["n"], spec["seed"]), list(compositions(spec["n"]))
    else:
        b, x, splits = w, signal(spec["x"], sum(spec["parts"]), spec["seed"]), [spec["parts"]]
    v = numpy.asarray(x)
    ref = [want(w, f, v[i:i + n]) for i in range(0, len(v) - n + 1, n)]
    m = scale(w) * scale(v) * (2 + n ** 0.5)
    for parts in splits:
        g = GoertzelFilter(b=b, frequency=f)
        p = q = 0
        for c in cut(x, parts):
            y = g.filter(c)
            p += len(c)
            what = f"window {spec['w']} frequency {f} signal {spec['x']} calls {parts} after {p} samples"
            need(len(y) == p // n - q, f"{what}: {len(y)} outputs, expected {p // n - q}")
            same(y, ref[q:p // n] if p // n > q else numpy.zeros(0), what, ref=m, rtol=1e-10 if n < 20 else 1e-9)
            if spec["x"] == "cthin" and f in (0.0, 1.0):
                same(numpy.imag(y), numpy.imag(ref[q:p // n] if p // n > q else numpy.zeros(0)), what + ", small imaginary part", ref=m * 1e-9, rtol=1e-4)
            q = p // n
            out.transitions += 1
            out.state(spec["w"], f, spec["x"], p % n, v[q * n:p])
        out.traces += 1
    out.outcome = spec
    return out
