"""C01: FIR streaming equals the difference equation under every split and history."""
import itertools

import numpy
from diamondback import FirFilter

from mc.core import Out
from mc.util import EXTREME, compositions, cut, flat, flats, need, same, scale, signal, words

ID, LEVEL = "C01", "model_checking"
RULE = (
    "case = coefficients x initial state x signal, every composition of the signal into calls; or one word over a sample "
    "alphabet with every composition; or one operation sequence. State = (coefficients, recent samples) of the reference. "
    "Nontrivial: at least two calls or a state carried in."
)
ASSUMPTIONS = ["float64 rounding up to 1e-12 relative (1e-9 for long streams)", "signal typed real for real coefficients (as the code types its output)"]

B = dict(
    one=[0.5], neg=[-2.0], two=[0.25, -0.75], three=[1.0, 0.5, -0.25], lead0=[0.0, 0.5, 0.25], trail0=[0.5, 0.25, 0.0],
    mid0=[1.0, 0.0, 0.0, -1.0], four=[0.1, -0.2, 0.3, 0.7], five=[0.3, 0.1, -0.4, 0.15, 0.9], nine=[0.1, 0.2, -0.3, 0.4, 0.5, -0.6, 0.7, 0.8, -0.9],
    int1=[2], int2=[1, 1], int3=[1, -2, 1], zero=[0.0, 0.0], tiny=[1e-9, 2e-9, -1e-9], big=[1e6, -3e6],
    sum0=[1.0, -1.0], twelve=[0.01 * k - 0.05 for k in range(12)],
)
BC = dict(c1=[1j], c2=[0.5 + 0.25j, -0.75j], c3=[1 + 0j, 0.5 + 0j, -0.25 + 0j], c5=[0.1j, 0.2, -0.3 + 1j, 0.4, 0.5 - 1j])
FORM = ("array", "list", "tuple")


def coef(name, form="array"):
    b = (B.get(name) or BC.get(name))
    return numpy.array(b) if form == "array" else (list(b) if form == "list" else tuple(b))


def initial(kind, n):
    if kind == "none":
        return None
    k = dict(same=n, short=max(n - 1, 1), long=n + 3)[kind]
    return [0.5 + 0.25 * i for i in range(k)]


def cases(tier, seed):
    n = 7 if tier == "quick" else 11
    real = ["gen", "int", "list", "ilist", "f32", "i8", "u8", "imp", "alt", "late", "gaps", "big", "tiny", "neg", "nano", "mega", "fade", "view", *EXTREME]
    for b in B:
        for form in FORM:
            for s in ("none", "same", "short", "long"):
                for x in real if form == "array" else ["gen", "ilist"]:
                    yield dict(k="split", b=b, form=form, s=s, x=x, n=n, seed=seed)
    for b in BC:
        for form in FORM[:2]:
            for s in ("none", "same", "long"):
                for x in ["cgen", "gen", "c0", "cmix", "clist", "c64", "int", "cthin", "cnano", "view", "cview"]:
                    yield dict(k="split", b=b, form=form, s=s, x=x, n=n, seed=seed)
    m = 5 if tier == "quick" else 6
    for b in ("one", "two", "lead0", "four", "int3"):
        for w in words((-1.0, 0.0, 2.0), m):
            yield dict(k="word", b=b, w=list(w))
    for b in ("one", "two", "lead0", "int3"):
        for w in words((2.0 ** 30, -(2.0 ** 30), 0.5), m):
            yield dict(k="word", b=b, w=list(w))
    # every pattern of zeros of the coefficients constructed and of those assigned later
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for head in itertools.product((0, 1), repeat=n):
            yield dict(k="assign", head=list(head))
    depth = 4 if tier == "quick" else 5
    for b in ("three", "one", "c2", "int3", "nine"):
        for first in OPS:
            for second in OPS:
                yield dict(k="ops", b=b, head=[first, second], depth=depth, seed=seed)
    sizes = (1, 2, 7, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 500, 1025)
    for order in (1, 15, 32, 63, 128, 256, 300):
        for c1, c2 in itertools.product(sizes, repeat=2):
            yield dict(k="long", order=order, parts=[c1, c2, 40], seed=seed)
        for big in (2050, 4099, 8200) if tier == "quick" else (2050, 4099, 8200, 16400, 33000):
            yield dict(k="long", order=order, parts=[big, 40], seed=seed)
            yield dict(k="long", order=order, parts=[3, big, 40], seed=seed)
            yield dict(k="long", order=order, parts=[3, big, 40], cx=True, seed=seed)
    for order in (1, 6, 24):
        for big in (16384, 16385, 32769, 65537, 131073):
            yield dict(k="long", order=order, parts=[big, 40], seed=seed)
            yield dict(k="long", order=order, parts=[3, big, 40], cx=True, seed=seed)
    if tier != "quick":
        for order in (16, 31, 64):
            for p in itertools.product(sizes[:10], repeat=3):
                yield dict(k="long", order=order, parts=list(p), seed=seed)
    for fn, pairs in flats(tier == "quick"):
        for b in ("three", "sum0", "nine", "int3", "c2"):
            yield dict(k="flat", b=b, n=fn, pairs=pairs, seed=seed)
    for style in FirFilter.STYLE:
        for order in (4, 16):
            yield dict(k="style", style=style, order=order, n=n + 1, seed=seed)


OPS = ["f1", "f2", "f5", "reset", "setb", "sets", "query", "resume"]


class Ref(object):
    def __init__(self, b, s=None):
        s = list(s) if s is not None else []
        n = max(len(b), len(s))
        self.b = [v for v in b] + [0.0] * (n - len(b))
        self.h = s + [0.0] * (n - len(s))

    def scale(self, x):
        return sum(abs(v) for v in self.b) * scale(self.h, x)

    def filter(self, x):
        y = []
        for v in numpy.asarray(x).tolist():
            self.h = [v] + self.h[:-1]
            y.append(sum(c * u for c, u in zip(self.b, self.h)))
        return y


def run_case(spec):
    out = Out()
    if spec["k"] == "split":
        b = coef(spec["b"], spec["form"])
        s = initial(spec["s"], len(b))
        x = signal(spec["x"], spec["n"], spec["seed"])
        for parts in compositions(spec["n"]):
            stream(out, lambda: FirFilter(b=b, s=s), Ref(list(b), s), x, parts, spec["b"])
    elif spec["k"] == "word":
        b = coef(spec["b"])
        for parts in compositions(len(spec["w"])):
            stream(out, lambda: FirFilter(b=b), Ref(list(b)), spec["w"], parts, spec["b"], 1e-12)
    elif spec["k"] == "assign":
        assign(out, spec["head"])
    elif spec["k"] == "long":
        b = signal("cgen" if spec.get("cx") else "gen", spec["order"] + 1, 7)
        x = signal("cgen" if spec.get("cx") else "gen", sum(spec["parts"]), spec["seed"])
        f = FirFilter(b=b)
        y = numpy.concatenate([f.filter(c) for c in cut(x, spec["parts"])])
        same(y, numpy.convolve(b, x)[:len(x)], f"order {spec['order']} calls {spec['parts']}", ref=scale(b) * scale(x) * len(b))
        out.traces, out.transitions = 1, len(spec["parts"])
        out.state(spec["order"], tuple(spec["parts"]))
    elif spec["k"] == "flat":
        b = coef(spec["b"])
        for x in flat(spec["n"], spec["pairs"]):
            stream(out, lambda: FirFilter(b=b), Ref(list(b)), numpy.concatenate((x, signal("gen", 5, spec["seed"]))), [spec["n"], 5], spec["b"])
    elif spec["k"] == "style":
        f = FirFilter(style=spec["style"], frequency=0.3, order=spec["order"])
        b, n = list(f.b), spec["n"]
        x = signal("gen", n, spec["seed"])
        for parts in compositions(n):
            f.reset(0.0)
            stream(out, lambda: f, Ref(b), x, parts, spec["style"])
    else:
        for tail in itertools.product(OPS, repeat=spec["depth"] - 2):
            history(out, spec, spec["head"] + list(tail))
    out.outcome = [sorted(out.states)[:4], len(out.states)]
    return out


def assign(out, head):
    n = len(head)
    first = [v * (0.5 + i) for i, v in enumerate(head)]
    x = [0.5, -1.25, 2.0, 0.75, -0.5, 1.5, 3.0]
    for mask in itertools.product((0, 1), repeat=n):
        for k, new in enumerate(([v * (1.5 - i) for i, v in enumerate(mask)], [v * (1.5j - i) for i, v in enumerate(mask)], [v * (i - 2) for i, v in enumerate(mask)])):
            if k == 1 and not any(mask):
                continue
            for form in (list, numpy.array):
                for cut1 in (0, 1, 2, 4):
                    f, ref = FirFilter(b=list(first)), Ref(first)
                    if cut1:
                        same(f.filter(x[:cut1]), ref.filter(x[:cut1]), f"b={first}")
                    f.b = form(new)
                    ref.b = list(new)
                    for c in (x[cut1:cut1 + 1], x[cut1 + 1:]):
                        same(f.filter(c), ref.filter(c), f"b={first}, {cut1} samples, then b={new}", ref=8.0)
                        out.transitions += 1
                    out.state(first, new, cut1)
                    out.traces += 1


def stream(out, make, ref, x, parts, name, rtol=1e-12):
    f = make()
    got = []
    for c in cut(x, parts):
        y = f.filter(c)
        got.append(y)
        m = ref.scale(x)
        want = ref.filter(c)
        what = f"b={name} calls={parts} call {len(got)}"
        same(y, want, what, ref=m, rtol=rtol)
        same(f.s, ref.h, what + " state", ref=scale(ref.h, x), rtol=rtol)
        out.transitions += 1
        out.state(name, ref.h)
    out.traces += 1


def history(out, spec, ops):
    b = coef(spec["b"])
    cx = numpy.iscomplexobj(b)
    f, ref = FirFilter(b=b), Ref(list(b))
    x = signal("cgen" if cx else "gen", 64, spec["seed"])
    k = 0
    for i, op in enumerate(ops):
        what = f"b={spec['b']} after {ops[:i + 1]}"
        if op[0] == "f":
            c = x[k:k + int(op[1:])]
            k += len(c)
            m = ref.scale(c)
            want = ref.filter(c)
            same(f.filter(c), want, what, ref=m)
        elif op == "reset":
            v = float(x[40 + i].real)
            f.reset(v)
            ref.h = [v] * len(ref.h)
        elif op == "setb":
            nb = [c * (i + 2.0) + 0.125 for c in b]
            f.b = numpy.array(nb)
            ref.b = nb
        elif op == "sets":
            ns = signal("cgen" if cx else "gen", len(ref.h), i + 50)
            f.s = numpy.array(ns)
            ref.h = list(ns)
        elif op == "query":
            f.response(5, 2), f.delay(4, 1), f.roots(2)
            same(f.b, ref.b, what + " coefficients")
        else:
            f = FirFilter(b=f.b, s=f.s)
        same(f.s, ref.h, what + " state", ref=scale(ref.h, 1.0))
        out.transitions += 1
        out.state(spec["b"], ref.b, ref.h)
    m = ref.scale(x)
    want = ref.filter(x[k:k + 4])
    same(f.filter(x[k:k + 4]), want, f"b={spec['b']} after {ops} and 4 samples", ref=m)
    out.traces += 1
