"""C08: PID output against the documented sum, over words, splits and limit changes."""
import itertools
import math

import numpy
from diamondback import PidFilter

from mc.core import Out, Violation
from mc.util import EXTREME, compositions, cut, flat, flats, need, rejects, same, signal, words

ID, LEVEL = "C08", "model_checking"
RULE = (
    "case = (gains, limit, word) with every composition into calls, or one sequence of operations (calls, limit changes, rejected limits, reset to zero). "
    "State = (gains, limit, integral, last sample) of the reference. Nontrivial: the integral saturates or a second call is made."
)
ASSUMPTIONS = ["real signals", "rounding up to 1e-9 relative"]
GAINS = ([0.1, 0.05, 0.0], [1.0, 2.0, -3.0], [0.0, 1.0, 0.0], [1, 2, 3], [0.0, 0.0, 1.0], (0.5, 0.25, 0.125))
LIMITS = (math.inf, 0.0, 0.5, 0.75, 1.0, 1.5, 3.0)
OPS = [("f", (1.0,)), ("f", (-1.0,)), ("f", (2.0, 0.5)), ("f", (0.0, -3.0)), ("l", math.inf), ("l", 0.75), ("l", 2.0), ("l", 0.0), ("bad", -1.0), ("reset", 0.0)]


def cases(tier, seed):
    m = 4 if tier == "quick" else 6
    for g in range(len(GAINS)):
        for limit in LIMITS:
            for w in words((-1.0, 0.0, 0.5, 2.0), 1):
                yield dict(k="words", g=g, limit=repr(limit), head=list(w), m=m)
            for x in ("gen", "int", "list", "ilist", "f32", "i8", "u8", "wide", "big", "tiny", "nano", "mega", "view", "fade", "alt", "step", *EXTREME):
                yield dict(k="sig", g=g, limit=repr(limit), x=x, n=8, seed=seed)
    depth = 4 if tier == "quick" else 5
    for g in (0, 1, 3):
        for head in itertools.product(range(len(OPS)), repeat=2):
            yield dict(k="ops", g=g, head=list(head), depth=depth)
    for fn, pairs in flats(tier == "quick"):
        for limit in (math.inf, 2.0):
            yield dict(k="flat", g=1, limit=repr(limit), n=fn, pairs=pairs, seed=seed)
    for parts in itertools.product((1, 3, 64, 700), repeat=2):
        for limit in (math.inf, 2.0):
            yield dict(k="long", g=1, limit=repr(limit), parts=list(parts), seed=seed)
    for big in (4097, 8193, 16385, 32769, 65537, 131073):
        for limit in (math.inf, 2.0):
            yield dict(k="long", g=1, limit=repr(limit), parts=[big, 9], seed=seed)
            yield dict(k="long", g=1, limit=repr(limit), parts=[3, big, 9], seed=seed)


class Ref(object):
    def __init__(self, b, limit=math.inf):
        self.b, self.limit, self.i, self.p = list(b), limit, 0.0, 0.0
        self.m = 0.0

    def filter(self, x):
        r = []
        for v in numpy.asarray(x, float).tolist():
            d = v - self.p
            self.i = max(-self.limit, min(self.limit, self.i + v))
            self.p = v
            self.m = max(self.m, abs(v), abs(self.i), abs(d))
            r.append(self.b[0] * v + self.b[1] * self.i + self.b[2] * d)
        return r

    def scale(self):
        return (self.m or 1.0) * (sum(abs(v) for v in self.b) or 1.0)


def run_case(spec):
    out = Out()
    b = GAINS[spec["g"]]
    k = spec["k"]
    if k == "ops":
        for tail in itertools.product(OPS, repeat=spec["depth"] - 2):
            ops = [OPS[i] for i in spec["head"]] + list(tail) + [("f", (0.25, -1.0))]
            f, ref = PidFilter(b=b), Ref(b)
            for i, (op, v) in enumerate(ops):
                what = f"b={b} after {ops[:i + 1]}"
                if op == "f":
                    y, want = f.filter(list(v)), ref.filter(v)
                    same(y, want, what, ref=ref.scale())
                    if b[1] and b[0] == 0 and b[2] == 0:
                        need(abs(y[-1]) <= abs(b[1]) * ref.limit * (1 + 1e-12), f"{what}: integral exceeds the limit")
                elif op == "l":
                    f.limit = v
                    ref.limit = v
                elif op == "bad":
                    try:
                        f.limit = v
                    except ValueError:
                        pass
                    else:
                        raise Violation(f"{what}: negative limit accepted")
                else:
                    f.reset(0.0)
                    ref.i = ref.p = 0.0
                need(f.limit == ref.limit, f"{what}: limit {f.limit}, expected {ref.limit}")
                out.transitions += 1
                out.state(spec["g"], repr(ref.limit), ref.i, ref.p)
            out.traces += 1
    else:
        limit = float(spec["limit"])
        if k == "words":
            todo = [spec["head"] + list(w) for m in range(0, spec["m"]) for w in itertools.product((-1.0, 0.0, 0.5, 2.0), repeat=m)]
            splits = compositions
        elif k == "sig":
            todo, splits = [signal(spec["x"], spec["n"], spec["seed"])], compositions
        elif k == "flat":
            todo, splits = [numpy.concatenate((x, signal("gen", 5, spec["seed"]))) for x in flat(spec["n"], spec["pairs"])], lambda n: [[n - 5, 5]]
        else:
            todo, splits = [signal("gen", sum(spec["parts"]), spec["seed"])], lambda n: [spec["parts"]]
        for x in todo:
            for parts in splits(len(x)):
                f, ref = PidFilter(b=b), Ref(b, limit)
                f.limit = limit
                for c in cut(x, parts):
                    y, want = f.filter(c), ref.filter(c)
                    same(y, want, f"b={b} limit={limit} x={list(x[:8])} calls={parts}", ref=ref.scale())
                    out.transitions += 1
                    out.state(spec["g"], spec["limit"], ref.i, ref.p)
                out.traces += 1
    out.outcome = [spec["k"], spec["g"], len(out.states), spec.get("limit"), spec.get("x"), spec.get("head")]
    return out
