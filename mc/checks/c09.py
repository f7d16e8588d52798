"""C09: rank filter against sorting its window, over words, splits, index changes and resets."""
import itertools

import numpy
from diamondback import RankFilter

from mc.core import Out, Violation
from mc.util import EXTREME, compositions, cut, need, same, signal

ID, LEVEL = "C09", "model_checking"
RULE = (
    "case = (order, index, first sample): every word over the sample alphabet with every composition into calls; or one sequence of operations (calls, index changes, rejected "
    "indices, resets). State = (order, index, window of the reference). Nontrivial: the window holds distinct values."
)
ASSUMPTIONS = ["real samples; two samples of equal magnitude and opposite sign do not share a window (their order is unspecified: either is accepted)"]
E = (1.0, -1.0, 2.0, -2.0)
N = (1.0, 1.0 + 2.0 ** -40, 1.0 - 2.0 ** -40, -(1.0 + 2.0 ** -52))       # magnitudes next to each other
L = (2 ** 53 - 1, 2 ** 53 - 2, -(2 ** 53 - 3), 5)
A = (0.0, 1.0, 2.0, -3.0)
OPS = [("f", (2.0,)), ("f", (-3.0, 1.0)), ("f", (0.0, 5.0, 1.0)), ("i", 0), ("i", -1), ("i", "mid"), ("bad", -1), ("bad", 99), ("reset", 4.5), ("reset", 0.0), ("f", (1, 7))]
KINDS = (
    lambda v: [float(u) for u in v], lambda v: [int(u) for u in v], lambda v: numpy.array(v, float), lambda v: numpy.array(v, int),
    lambda v: numpy.array(v, numpy.float32), lambda v: numpy.array(v, numpy.int16),
)


def cases(tier, seed):
    m = 5 if tier == "quick" else 6
    for order in range(0, 5 if tier == "quick" else 7):
        for index in range(order + 1):
            for v in A:
                yield dict(k="words", order=order, index=index, first=v, m=m)
            if index <= order:
                for v in E[:2] if tier == "quick" else E:
                    yield dict(k="words", order=order, index=index, first=v, m=m, a="E")
            for a in "NL":
                for v in globals()[a]:
                    yield dict(k="words", order=order, index=index, first=v, m=m, a=a)
            for x in ("gen", "int", "list", "ilist", "f32", "i8", "u8", "neg", "gaps", "big", *EXTREME):
                yield dict(k="sig", order=order, index=index, x=x, n=9, seed=seed)
    for order in (0, 1, 2, 3, 5):
        for index in range(order + 1):
            yield dict(k="kinds", order=order, index=index)
    for order in (6, 7, 8, 9, 10, 12, 16, 17, 31, 32, 64, 100):
        for index in sorted({0, 1, order // 2, order - 1, order}):
            for parts in ([1] * 20, [7, 200], [200, 7], [33, 1, 80], [207]):
                yield dict(k="long", order=order, index=index, parts=parts, seed=seed)
    for order in (0, 2, 5):
        for big in (4097, 16385, 65537):
            yield dict(k="long", order=order, index=order // 2, parts=[big, 9], seed=seed)
            yield dict(k="long", order=order, index=order, parts=[3, big, 9], seed=seed)
    depth = 4 if tier == "quick" else 5
    for order in (0, 1, 2, 4):
        for head in itertools.product(range(len(OPS)), repeat=2):
            yield dict(k="ops", order=order, head=list(head), depth=depth)


class Ref(object):
    def __init__(self, order, index):
        self.w, self.index, self.seen = [0.0] * (order + 1), index, []

    def filter(self, x):
        r = []
        for v in numpy.asarray(x).tolist():
            self.w = [v] + self.w[:-1]
            self.seen.append(self.w)
            r.append(sorted(self.w, key=abs)[self.index])
        return r


def stream(out, order, index, x, parts, signs=False):
    f, ref = RankFilter(index=index, order=order), Ref(order, index)
    for c in cut(x, parts):
        y, want = f.filter(c), ref.filter(c)
        what = f"order {order} index {index} of {list(x[:24])} calls {parts}"
        if signs:
            # samples of equal magnitude and opposite sign: any sample of the window of that magnitude
            same(abs(numpy.asarray(y)), numpy.abs(want), what + ": magnitude")
            for u, v in zip(numpy.asarray(y).tolist(), ref.seen[-len(c):]):
                need(u in v, f"{what}: {u} is not in the window {v}")
        else:
            same(y, want, what, rtol=0.0)
        out.transitions += 1
        out.state(order, index, ref.w)
    out.traces += 1


def run_case(spec):
    out = Out()
    k, order = spec["k"], spec["order"]
    if k == "words":
        for m in range(spec["m"]):
            for w in itertools.product(globals()[spec.get("a", "A")], repeat=m):
                w = [spec["first"]] + list(w)
                for parts in compositions(len(w)):
                    stream(out, order, spec["index"], w, parts, spec.get("a") == "E")
    elif k == "sig":
        for parts in compositions(spec["n"]):
            stream(out, order, spec["index"], signal(spec["x"], spec["n"], spec["seed"]), parts)
    elif k == "kinds":
        # calls of different numeric types on one instance
        v = (0.5, -2.25, 3.75), (4, 1, -6), (0.75, 8.5)
        for kinds in itertools.product(KINDS, repeat=3):
            for level in (None, 2.5, 3):
                f, ref = RankFilter(index=spec["index"], order=order), Ref(order, spec["index"])
                if level is not None:
                    f.reset(level)
                    ref.w = [level] * (order + 1)
                for kind, c in zip(kinds, v):
                    x = kind(c)
                    same(f.filter(x), ref.filter(x), f"order {order} index {spec['index']} level {level} calls of types {[type(u(v[0])) for u in kinds]} of {v}")
                    out.transitions += 1
                    out.state(order, spec["index"], ref.w)
                out.traces += 1
    elif k == "long":
        n = sum(spec["parts"])
        # distinct magnitudes: a permutation with signs
        # (coprime to the modulus: no magnitude is repeated within a window)
        v = numpy.array([((i * 89 + 7 * spec["seed"]) % 499 + 0.25) * (-1.0 if (i % 499) % 3 == 0 else 1.0) for i in range(n)])
        stream(out, order, spec["index"], v, spec["parts"])
        if n < 1000:
            # magnitudes which differ in the last digits of double precision, and which span its range
            stream(out, order, spec["index"], 1.0 + v * 1e-12, spec["parts"])
            stream(out, order, spec["index"], numpy.sign(v) * 10.0 ** (abs(v) / 2.0 - 125.0), spec["parts"])
            stream(out, order, spec["index"], numpy.where(v < 0, -4e15, 4e15) + v.round() * 2, spec["parts"])
    else:
        for tail in itertools.product(OPS, repeat=spec["depth"] - 2):
            ops = [OPS[i] for i in spec["head"]] + list(tail) + [("f", (2.5, -0.5))]
            f, ref = RankFilter(index=order // 2, order=order), Ref(order, order // 2)
            for i, (op, v) in enumerate(ops):
                what = f"order {order} after {ops[:i + 1]}"
                if op == "f":
                    same(f.filter(list(v)), ref.filter(v), what)
                elif op == "i":
                    v = order if v == -1 else (order // 2 if v == "mid" else v)
                    f.index = v
                    ref.index = v
                elif op == "bad":
                    try:
                        f.index = v
                    except ValueError:
                        pass
                    else:
                        raise Violation(f"{what}: index {v} accepted")
                else:
                    f.reset(v)
                    ref.w = [v] * (order + 1)
                need(f.index == ref.index, f"{what}: index {f.index}, expected {ref.index}")
                out.transitions += 1
                out.state(order, ref.index, ref.w)
            out.traces += 1
    out.outcome = spec
    return out
