"""C02: IIR streaming equals the recursive difference equation under every split and history."""
import itertools

import numpy
from diamondback import IirFilter

from mc.core import Out
from mc.util import EXTREME, compositions, cut, flat, flats, same, scale, signal, words

ID, LEVEL = "C02", "model_checking"
RULE = (
    "case = (a, b) x container form x signal, every composition of the signal into calls; or one word over a sample alphabet with "
    "every composition; or one operation sequence. State = (coefficients, recent inputs and outputs) of the reference. "
    "Nontrivial: at least two calls or a state carried in."
)
ASSUMPTIONS = ["float64 rounding up to 1e-12 relative (1e-9 for histories, styles and long streams) to the largest value of the history", "|growth| of unstable coefficients is bounded by the stream length explored"]

AB = dict(
    int=([0.0, 1.0], [1.0]), trap=([0.0, 1.0], [0.5, 0.5]), ema=([0.0, 0.9], [0.1]), ema2=([0.0, 0.5, 0.0], [0.25, 0.0, 0.25]),
    neg=([0.0, -0.8], [1.0, 0.3]), osc=([0.0, 1.6180339887, -1.0], [1.0]), two=([0.0, 1.2, -0.5], [0.1, 0.2, 0.05]),
    longa=([0.0, 0.3, -0.2, 0.1, 0.25], [0.5, 0.25]), longb=([0.0, 0.4], [0.1, 0.2, 0.3, 0.4, -0.5]), onlyb=([], [0.5, 0.25]), zeroa=([0.0], [0.5, -0.5]),
    gain=([0.0], [2.0]), intab=([0, 1], [1, 1]), intb=([0, 1, -1], [2]), lead0=([0.0, 0.5], [0.0, 1.0]), lead00=([0.0, 0.0, 0.25], [0.0, 0.0, 1.0]),
    canc=([0.0, 0.5], [1.0, -0.5]), four=([0.0, 0.2, 0.1, -0.3, 0.15], [0.3, -0.1, 0.2, 0.4, -0.6]), unst=([0.0, 1.3], [1.0]),
    c1=([0.0, 0.5j], [1.0]), c2=([0.0, 0.5, -0.25j], [1j, 0.5]), c3=([0.0, 0.9], [0.1j, 0.0, 0.5]), c4=([0.0, 1.2, -0.8, 0.1], [1.0, -0.7 + 0.2j]),
)


def coef(name, form):
    a, b = AB[name]
    if form == "array":
        return numpy.array(a), numpy.array(b)
    return (list(a), list(b)) if form == "list" else (tuple(a), tuple(b))


def cases(tier, seed):
    n = 8 if tier == "quick" else 12
    for name in AB:
        cx = name[0] == "c" and name[1].isdigit()
        for form in ("array", "list", "tuple"):
            for x in (["cgen", "gen", "c0", "cmix", "clist", "c64", "int", "cthin", "cnano", "view", "cview"] if cx else ["gen", "int", "list", "ilist", "f32", "i8", "u8", "imp", "alt", "late", "gaps", "big", "tiny", "neg", "step", "nano", "mega", "fade", "view", *EXTREME]):
                yield dict(k="split", ab=name, form=form, x=x, n=n, seed=seed)
    m = 5 if tier == "quick" else 7
    for name in ("int", "neg", "two", "longb", "intb", "lead0"):
        for w in words((-1.0, 0.0, 2.0), m):
            yield dict(k="word", ab=name, w=list(w))
    for name in ("int", "neg", "intb", "lead0", "longb"):
        for w in words((2.0 ** 30, -(2.0 ** 30), 0.5), m):
            yield dict(k="word", ab=name, w=list(w))
    depth = 5 if tier == "quick" else 6
    for name in ("two", "int", "c2", "longa", "longb", "gain", "four"):
        for head in itertools.product(OPS, repeat=2):
            yield dict(k="ops", ab=name, head=list(head), depth=depth, seed=seed)
    sizes = (1, 2, 7, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 500, 1025)
    for name in ("two", "four", "longa", "osc", "neg"):
        for c1, c2 in itertools.product(sizes, repeat=2):
            yield dict(k="long", ab=name, parts=[c1, c2, 40], seed=seed)
    for name in AB:
        if name != "unst" and name != "canc":
            for parts in ([1100, 30], [1, 1100, 30], [600, 600, 30], [2100, 5], [40, 40], [300, 40], [4200, 9]):
                yield dict(k="long", ab=name, parts=parts, seed=seed)
    for name in ("two", "four", "longb", "c2"):
        for big in (8193, 16385, 32769, 65537, 131073):
            yield dict(k="long", ab=name, parts=[big, 40], seed=seed)
            yield dict(k="long", ab=name, parts=[3, big, 9], seed=seed)
    for fn, pairs in flats(tier == "quick"):
        for ab in ("two", "ema", "intb", "longb", "c2"):
            yield dict(k="flat", ab=ab, n=fn, pairs=pairs, seed=seed)
    for name in AB:
        yield dict(k="scaled", ab=name, n=min(n, 9), seed=seed)
    for style in IirFilter.STYLE:
        for order in (1, 2, 3, 5, 8):
            yield dict(k="style", style=style, order=order, n=n, seed=seed)


OPS = ["f1", "f2", "f5", "query", "resume", "resumelist"]


class Ref(object):
    def __init__(self, a, b):
        n = max(len(a), len(b))
        self.a = list(a) + [0.0] * (n - len(a))
        self.b = list(b) + [0.0] * (n - len(b))
        self.x, self.y = [0.0] * n, [0.0] * n
        self.m = 0.0

    def filter(self, x):
        r = []
        for v in numpy.asarray(x).tolist():
            self.x = [v] + self.x[:-1]
            y = sum(c * u for c, u in zip(self.b, self.x)) + sum(c * u for c, u in zip(self.a[1:], self.y))
            self.y = [y] + self.y[:-1]
            self.m = max(self.m, abs(v), abs(y))
            r.append(y)
        return r

    def scale(self):
        return self.m * (1.0 + sum(abs(v) for v in self.a) + sum(abs(v) for v in self.b))


def run_case(spec):
    out = Out()
    if spec["k"] == "split":
        a, b = coef(spec["ab"], spec["form"])
        x = signal(spec["x"], spec["n"], spec["seed"])
        for parts in compositions(spec["n"]):
            stream(out, IirFilter(a=a, b=b), Ref(a, b), x, parts, spec["ab"], 1e-12)
    elif spec["k"] == "word":
        a, b = coef(spec["ab"], "array")
        for parts in compositions(len(spec["w"])):
            stream(out, IirFilter(a=a, b=b), Ref(a, b), spec["w"], parts, spec["ab"], 1e-12)
    elif spec["k"] == "long":
        a, b = coef(spec["ab"], "array")
        cx = numpy.iscomplexobj(a) or numpy.iscomplexobj(b)
        x = signal("cgen" if cx else "gen", sum(spec["parts"]), spec["seed"])
        if cx:
            stream(out, IirFilter(a=a, b=b), Ref(a, b), x.real, spec["parts"], spec["ab"])
        stream(out, IirFilter(a=a, b=b), Ref(a, b), x, spec["parts"], spec["ab"])
    elif spec["k"] == "flat":
        a, b = coef(spec["ab"], "array")
        for x in flat(spec["n"], spec["pairs"]):
            stream(out, IirFilter(a=a, b=b), Ref(a, b), numpy.concatenate((x, signal("gen", 5, spec["seed"]))), [spec["n"], 5], spec["ab"], 1e-11)
    elif spec["k"] == "scaled":
        # forward coefficients, and the first one alone, of small and large scale
        a, b = coef(spec["ab"], "array")
        cx = numpy.iscomplexobj(a) or numpy.iscomplexobj(b)
        x = signal("cgen" if cx else "gen", spec["n"], spec["seed"])
        for g in (1e-15, 1e-12, 1e-9, 1e-6, 1e6, 1e12):
            for parts in compositions(spec["n"]):
                f, ref = IirFilter(a=a, b=b * g), Ref(a, b)
                for i, c in enumerate(cut(x, parts)):
                    want = ref.filter(c)
                    same(numpy.asarray(f.filter(c)) / g, want, f"coefficients={spec['ab']} forward scaled {g} calls={parts} call {i + 1}", ref=ref.scale(), rtol=1e-11)
                    out.transitions += 1
                    out.state(spec["ab"], g, ref.x, ref.y)
                out.traces += 1
            d = numpy.concatenate(([g], b[1:]))
            stream(out, IirFilter(a=a, b=d), Ref(a, d), x, [3, spec["n"] - 3], spec["ab"], 1e-12)
    elif spec["k"] == "style":
        x = signal("gen", spec["n"], spec["seed"])
        f = IirFilter(style=spec["style"], frequency=0.12, order=spec["order"])
        a, b = numpy.array(f.a), numpy.array(f.b)
        stream(out, f, Ref(a, b), x, [spec["n"]], spec["style"])
        for parts in compositions(spec["n"]):
            stream(out, IirFilter(a=a, b=b), Ref(a, b), x, parts, spec["style"])
    else:
        for tail in itertools.product(OPS, repeat=spec["depth"] - 2):
            history(out, spec, spec["head"] + list(tail))
    out.outcome = [sorted(out.states)[:4], len(out.states)]
    return out


def stream(out, f, ref, x, parts, name, rtol=1e-9):
    for i, c in enumerate(cut(x, parts)):
        y = f.filter(c)
        want = ref.filter(c)
        same(y, want, f"coefficients={name} calls={parts} call {i + 1}", ref=ref.scale(), rtol=rtol)
        out.transitions += 1
        out.state(name, ref.x, ref.y)
    out.traces += 1


def history(out, spec, ops):
    a, b = coef(spec["ab"], "array")
    cx = numpy.iscomplexobj(a) or numpy.iscomplexobj(b)
    f, ref = IirFilter(a=a, b=b), Ref(a, b)
    x = signal("cgen" if cx else "gen", 64, spec["seed"])
    k = 0
    for i, op in enumerate(list(ops) + ["f5"]):
        what = f"coefficients={spec['ab']} after {ops[:i + 1]}"
        if op[0] == "f":
            c = x[k:k + int(op[1:])]
            k += len(c)
            y = f.filter(c)
            want = ref.filter(c)
            same(y, want, what, ref=ref.scale())
        elif op == "query":
            f.response(5, 2), f.delay(4, 1), f.roots(2)
        elif op == "resume":
            f = IirFilter(a=f.a, b=f.b, s=f.s)
        else:
            f = IirFilter(a=list(f.a), b=list(f.b), s=list(f.s))
        out.transitions += 1
        out.state(spec["ab"], ref.x, ref.y)
    out.traces += 1
