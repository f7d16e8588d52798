"""C24: snapshot and resumption of every instance after every history, and round trips of values."""
import base64
import copy
import datetime
import decimal
import fractions
import functools
import hashlib
import itertools
import json
import math
import os
import subprocess
import sys

import numpy
import pandas
from diamondback import Serial

from mc import zoo
from mc.core import HarnessError, Out, Violation
from mc.util import need, rejects, words

ID, LEVEL = "C24", "model_checking"
RULE = (
    "case = (class, history): the instance is encoded after the history in both forms, decoded in this or in a new process, and every continuation of the bound is run on copies and original against an uninterrupted instance; "
    "or one value of the alphabet in every encoding. State = (class, history, continuation). Nontrivial: all."
)
ASSUMPTIONS = ["encodings of text which are supersets of ASCII without a byte order mark", "determinism of the encoding is required of the same value, not of values which only compare equal"]
ALPHABET = set("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~")


@functools.cache
def encodings():
    """values which are themselves encodings, or the parts of one (made once, as compression is stamped with the time)"""
    v = []
    for x in (None, [1], {"a": 2.5}, "text"):
        for c in (True, False):
            t = Serial.encode(x, c)
            v += [t, "c%0" + t[3:], [t, t], t.encode(), base64.b85decode(t), Serial.encode(t, c), Serial.encode(Serial.encode(t, not c), c)]
    return v


def values():
    shared = [1, 2.5]
    loop = [1]
    loop.append(loop)
    v = [
        None, True, False, 0, 1, -1, 2 ** 31, 2 ** 63, -(2 ** 200), 0.0, -0.0, 1.5, 1e308, 5e-324, math.inf, -math.inf, math.nan, 1j, 2.5 - 3j,
        "", "a", "text", "multi\nline\0text", "\u00e9\u4e2d\U0001f600", "~" * 1000, b"", b"\x00\xff\x1f\x8b", bytearray(b"xy"), (), (1,), (1, (2, (3,))), [], [[]], [1, "a", None, 2.0],
        {}, {"a": 1, 2: "b", (3, 4): [5]}, {"x": {"y": {"z": [1, 2]}}}, set(), {1, 2, 3}, frozenset("abc"), range(3, 10, 2), slice(1, 5, 2), [shared, shared], {"p": shared, "q": shared}, loop,
        datetime.datetime(2026, 1, 2, 3, 4, 5), datetime.timedelta(1, 2), decimal.Decimal("1.10"), fractions.Fraction(3, 7), complex, len, Serial, list(range(5000)), "x" * 70000, b"\x1f\x8b" + b"\0" * 20, gzip_like(),
    ]
    for t in ("float64", "float32", "int64", "int8", "uint16", "bool", "complex128", "complex64", "S3", "U3", "datetime64[s]", "object"):
        for shape in ((), (0,), (1,), (5,), (2, 3), (2, 0), (2, 2, 2)):
            a = numpy.arange(int(numpy.prod(shape))) % 5
            v.append(a.astype(t).reshape(shape))
    v.append(numpy.asfortranarray(numpy.arange(6.0).reshape(2, 3)))
    v.append(numpy.arange(10.0)[::-2])
    v.append(numpy.array([numpy.nan, numpy.inf, -0.0]))
    v.append(numpy.float32(1.5))
    v.append(numpy.int64(7))
    v.append(numpy.zeros(3, [("a", "i4"), ("b", "f8")]))
    v.append([numpy.arange(3), {"m": numpy.eye(2)}])
    v.append(pandas.DataFrame(dict(fruit=["orange", "apple", "kiwi"], value=[1.25, 1.5, 0.30])))
    v.append(pandas.DataFrame(dict(a=[1, 2], b=[True, False], c=pandas.to_datetime(["2026-01-01", "2026-02-03"])), index=["x", "y"]))
    v.append(pandas.DataFrame())
    v.append(pandas.DataFrame(numpy.arange(6.0).reshape(2, 3), columns=list("abc")))
    v.append(pandas.Series([1.5, numpy.nan, 3.0], name="s"))
    v.append(pandas.DataFrame(dict(c=pandas.Categorical(["u", "v", "u"]), i=[1, None, 3])))
    v.append({"frame": pandas.DataFrame(dict(a=[1])), "n": [1]})
    # values which do not compress, of sizes about those of blocks and buffers
    noise = hashlib.shake_256(b"noise").digest(2 ** 21)
    for n in (255, 256, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 2 ** 17 + 1, 2 ** 20 + 1):
        v.append(noise[:n])
    v.append(numpy.frombuffer(noise, "int32"))
    v.append(numpy.arange(200000.0))
    v.append([float(i) for i in range(20000)])
    v.append({str(i): i for i in range(9000)})
    v.append(pandas.DataFrame(numpy.frombuffer(noise[:2 ** 18], "int64").reshape(-1, 4)))
    v.append("\u4e2d" * 100000)
    v += copy.deepcopy(encodings())
    deep = []
    for i in range(200):
        deep = [deep, i]
    v.append(deep)
    return v


def gzip_like():
    import gzip

    return gzip.compress(b"not a pickle")


def same_value(a, b, seen=()):
    if (id(a), id(b)) in seen:
        return True
    seen = seen + ((id(a), id(b)),)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_value(u, v, seen) for u, v in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_value(a[k], b[k], seen) for k in a)
    if isinstance(a, numpy.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and (repr(a.tolist()) == repr(b.tolist()))
    if isinstance(a, (pandas.DataFrame, pandas.Series)):
        return a.equals(b) and str(a.index) == str(b.index) and (isinstance(a, pandas.Series) or str(a.dtypes.to_dict()) == str(b.dtypes.to_dict()))
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b or repr(a) == repr(b)


def cases(tier, seed):
    quick = tier == "quick"
    for name in zoo.ZOO:
        n = len(zoo.ZOO[name][1])
        for d in range(0, 3 if quick else 4):
            for prefix in itertools.product(range(n), repeat=d):
                yield dict(k="obj", name=name, prefix=list(prefix), suffix=2 if quick or n > 6 else 3)
        yield dict(k="process", name=name)
    for i in range(len(values())):
        yield dict(k="value", i=i)
    for i in range(3):
        for compress in (True, False):
            yield dict(k="large", i=i, compress=compress)
    yield dict(k="code")
    yield dict(k="reject")


_CLIENT = r"""
import json, sys
sys.path[:0] = json.loads(sys.argv[1])
text = json.loads(sys.stdin.read())
from diamondback import Serial
name, n = text["name"], text["n"]
out = []
for t in text["texts"]:
    o = Serial.decode(t)
    from mc import zoo
    r = [zoo.look(o, name), zoo.run(o, name, list(range(n)) * 2, 5), zoo.look(o, name)]
    out.append(Serial.encode(r, compress=False))
print(json.dumps(out))
"""


def history(name, prefix):
    o = zoo.ZOO[name][0]()
    zoo.run(o, name, prefix)
    return o


def run_case(spec):
    out = Out()
    k = spec["k"]
    if k == "obj":
        name, prefix = spec["name"], spec["prefix"]
        what = f"{name} after {[zoo.ZOO[name][1][i].__name__ for i in prefix]}"
        o = history(name, prefix)
        before = zoo.look(o, name)
        texts = []
        for compress in (True, False):
            t = Serial.encode(o, compress)
            need(isinstance(t, str) and set(t) <= ALPHABET, f"{what}: encoding is not Base-85 text")
            texts.append(t)
        texts.append(Serial.encode(o))
        need(Serial.encode(o, False) == texts[1], f"{what}: uncompressed encoding is not deterministic")
        need(zoo.equal(zoo.look(o, name), before), f"{what}: encoding changed the instance")
        suffixes = [s for s in itertools.product(range(len(zoo.ZOO[name][1])), repeat=spec["suffix"])]
        start = len(prefix)
        copies = [[Serial.decode(t) for t in texts] for _ in suffixes]
        for suffix, group in zip(suffixes, copies):
            ref = o if suffix == suffixes[-1] else history(name, prefix) if not name.endswith("designed") else _replay(name, prefix, texts)
            want = [zoo.run(ref, name, suffix, start), zoo.look(ref, name)]
            for j, c in enumerate(group):
                need(type(c) is type(ref) and c is not o, f"{what}: decoded {type(c)}")
                need(zoo.equal(zoo.look(c, name), before), f"{what}: decoded form {j} differs: {zoo.look(c, name)}, expected {before}")
                got = [zoo.run(c, name, suffix, start), zoo.look(c, name)]
                if not zoo.equal(got, want):
                    raise Violation(f"{what}, decoded form {j}, continued with {suffix}: {got}, expected {want}")
                out.transitions += len(suffix) + 1
            out.state(name, prefix, suffix)
            out.traces += 1
        need(Serial.encode(Serial.decode(texts[1]), False) == Serial.encode(Serial.decode(texts[0]), False), f"{what}: both forms decode to different values")
    elif k == "process":
        name = spec["name"]
        n = len(zoo.ZOO[name][1])
        prefixes = [[], [0], list(range(n))]
        texts = []
        for p in prefixes:
            o = history(name, p)
            texts += [Serial.encode(o), Serial.encode(o, compress=False)]
        r = subprocess.run([sys.executable, "-c", _CLIENT, json.dumps([p for p in sys.path if p])], input=json.dumps(dict(name=name, n=n, texts=texts)), capture_output=True, text=True, timeout=90)
        if r.returncode:
            raise Violation(f"{name}: in a new process: {r.stderr[-1500:]}")
        for i, t in enumerate(json.loads(r.stdout.strip().splitlines()[-1])):
            o = history(name, prefixes[i // 2])
            want = [zoo.look(o, name), zoo.run(o, name, list(range(n)) * 2, 5), zoo.look(o, name)]
            got = Serial.decode(t)
            if not zoo.equal(got, want):
                raise Violation(f"{name} after {prefixes[i // 2]}, decoded in a new process: {got}, expected {want}")
            out.traces += 1
            out.transitions += 2 * n
            out.state(name, "process", i)
    elif k == "value":
        i = spec["i"]
        x = values()[i]
        ref = values()[i]
        for compress in (True, False):
            for enc in ("utf-8", "ascii", "latin-1", "cp1252"):
                t = Serial.encode(x, compress, enc)
                need(isinstance(t, str) and set(t) <= ALPHABET, f"{x!r:.100}: encoding is not Base-85 text")
                if not compress:
                    need(t == Serial.encode(x, compress=False), f"{x!r:.100}: uncompressed encoding is not deterministic")
                y = Serial.decode(t, enc)
                need(same_value(y, ref), f"{x!r:.100} compress {compress} encoding {enc}: decoded {y!r:.200}")
                need(same_value(x, ref), f"{x!r:.100}: encoding modified the value")
                if isinstance(y, (list, dict, set, bytearray)) and len(y):
                    y.clear()
                elif isinstance(y, numpy.ndarray) and y.size and y.dtype.kind in "fic":
                    y += 1
                z = Serial.decode(t)
                need(same_value(z, ref) and same_value(x, ref), f"{x!r:.100}: decoding again after modification gives {z!r:.200}")
                need(Serial.code(t, enc) == hashlib.sha3_256(t.encode(enc)).hexdigest(), f"{x!r:.100}: code")
                out.transitions += 5
                out.state(i, compress, enc)
        if isinstance(x, list) and len(x) == 2 and isinstance(x[0], list) and x[0] is x[1]:
            y = Serial.decode(Serial.encode(x))
            need(y[0] is y[1], "shared parts are no longer shared")
        out.traces += 1
    elif k == "large":
        # values whose encodings exceed those which are read, or compressed, at once
        x = (lambda: hashlib.shake_256(b"noise").digest(2 ** 24 + 4097), lambda: numpy.arange(2200000.0), lambda: b"\0" * (2 ** 25 + 1))[spec["i"]]()
        t = Serial.encode(x, spec["compress"])
        need(set(t) <= ALPHABET, "encoding of a large value is not Base-85 text")
        y = Serial.decode(t)
        need(type(y) is type(x) and len(y) == len(x) and (y == x if isinstance(x, bytes) else numpy.array_equal(x, y) and x.dtype == y.dtype), f"large value {spec}: decoded {y[:10]!r} of length {len(y)}")
        need(Serial.code(t) == hashlib.sha3_256(t.encode()).hexdigest(), f"code of the encoding of a large value {spec}")
        out.transitions += 3
        out.traces += 1
        out.state(spec)
    elif k == "code":
        need(Serial.code("abc") == "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532", f"code of abc: {Serial.code('abc')}")
        for n in range(1, 300):
            for c in ("a", "\u00e9", "\u4e2d"):
                for enc in ("utf-8", "utf-16", "utf-16-le", "utf-32-be"):
                    need(Serial.code(c * n, enc) == hashlib.sha3_256((c * n).encode(enc)).hexdigest(), f"code of {n} times {c!r} in {enc}")
                    out.transitions += 1
                if c != "\u4e2d":
                    need(Serial.code(c * n, encoding="latin-1") == hashlib.sha3_256((c * n).encode("latin-1")).hexdigest(), f"code of {n} times {c!r} in latin-1")
            out.state(n)
        for text in words("aA \n\t\0\r\u00e9e\u0301\ufeff", 4):
            text = "".join(text)
            for enc in ("utf-8", "utf-16-le"):
                need(Serial.code(text, enc) == hashlib.sha3_256(text.encode(enc)).hexdigest(), f"code of {text!r} in {enc}")
                out.transitions += 1
            out.state(text)
        out.traces += 1
    else:
        for f in (lambda: Serial.decode(""), lambda: Serial.decode(Serial.encode(1), ""), lambda: Serial.code(""), lambda: Serial.code("x", ""), lambda: Serial.encode(1, True, ""), lambda: Serial.encode([], False, ""), lambda: Serial.encode(None, encoding="")):
            rejects(f, "empty text or encoding name")
            out.transitions += 1
        good = Serial.encode([1, 2, 3])
        for bad in ("\u00e9", "a b", '"', good[:-1] + "\u4e2d"):
            try:
                v = Serial.decode(bad)
            except Exception:
                pass
            else:
                raise Violation(f"decoded {bad!r} to {v!r}")
        out.traces += 1
        out.state("reject")
    out.outcome = spec
    return out


_BASE = {}


def _replay(name, prefix, texts):
    """an uninterrupted instance; the design of coefficients is not repeated for each"""

    if name not in _BASE:
        _BASE[name] = zoo.ZOO[name][0]()
    o = _BASE[name]
    kw = {n: numpy.array(getattr(o, n)) for n in ("a", "b", "s") if hasattr(o, n)}
    r = type(o)(**kw)
    zoo.run(r, name, prefix)
    return r
