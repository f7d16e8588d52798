"""C25: every sequence of Log operations, each in a process of its own, against the sequential reference."""
import io
import itertools
import os
import sys
import time

sys_stderr = sys.stderr
from mc.logref import Sink

ERR = Sink("stderr")
if not os.environ.get("MC_KEEP_STDERR"):
    sys.stderr = ERR            # the handler which loguru creates on import
try:
    from diamondback import Log
    from loguru import logger
finally:
    sys.stderr = sys_stderr

from mc.core import Out, Violation
from mc.fork import isolated
from mc.logref import LEVELS, Ref, lines, parse
from mc.util import need

ID, LEVEL = "C25", "model_checking"
RULE = (
    "case = first two operations: every sequence of Log operations of the bound over the alphabet, followed by an entry of every level, in a process of its own; spellings, texts, exceptions and custom levels enumerated separately. "
    "State = (level, stream, entries per stream). Nontrivial: at least one entry is written."
)
ASSUMPTIONS = ["custom levels are defined in upper case, as loguru requires of names given in any case", "the default standard output is the one present at the first write"]
OPS = [
    ("level", "Debug"), ("level", "warning"), ("level", "CRITICAL"), ("level", "Nope"),
    ("stream", "A"), ("stream", "B"), ("stream", "out"), ("badstream", None),
    ("write", "Info"), ("write", "trace"), ("write", "ERROR"), ("write", "Nope"),
    ("add", "C"), ("direct", "Warning"), ("unadd", "C"), ("exception", "Error"),
]
TEXTS = ["plain", "", " ", "{}", "{0} {x}", "{", "}}", "<red>x</red>", "</level>", "<lvl>", "%s %d %", "\\n", "tab\tx", "\u00e9\u4e2d\U0001f600", "'\"`", "a" * 5000, "{message}", "<blue>{time}</blue>", "\x1b[31m", "Exception = x", "{{}}", "<", "\\<b>",
         "end\n", "\nstart", "two\nlines", "three\n\n\n", "  spaces  ", "\ttab\t", "win\r\n", "line\u2028x", "x" * 100000, "word " * 1000, "0", "None"]


def cases(tier, seed):
    quick = tier == "quick"
    depth = 3 if quick else 4
    for head in itertools.product(range(len(OPS)), repeat=2):
        yield dict(k="ops", head=list(head), depth=depth)
    for i in range(len(TEXTS)):
        yield dict(k="text", i=i)
    for level in sorted(LEVELS):
        yield dict(k="matrix", level=level)
    yield dict(k="custom")
    yield dict(k="errors")
    yield dict(k="file")
    yield dict(k="removed")
    yield dict(k="badstreams")
    yield dict(k="equal")


def perform(seq):
    """in a process of its own: returns (number of operations, states)"""
    sinks = dict(A=Sink("A"), B=Sink("B"), C=Sink("C"), out=Sink("out"))
    sys.stdout, sys.stderr = sinks["out"], ERR
    ref, user, states = Ref("out"), None, []
    for i, (op, v) in enumerate(seq):
        what = f"after {seq[:i + 1]}"
        t0 = time.time()
        result = want = None
        try:
            if op == "level":
                want = ref.level(v)
                Log.level(v)
            elif op == "stream":
                ref.redirect(v)
                Log.stream(sinks[v])
            elif op == "badstream":
                want = ValueError
                Log.stream((None, 5, "text", object())[i % 4])
            elif op == "write":
                want = ref.write(v, f"entry {i}")
                before = len(ref.out.get("C", []))
                Log.write(v, f"entry {i}")
            elif op == "exception":
                want = ref.write(v, None)
                try:
                    raise KeyError(f"x{i}")
                except KeyError as ex:
                    Log.write(v, ex)
            elif op == "add":
                if user is None:
                    user = logger.add(sinks["C"], format="{level} {message}", level=0)
            elif op == "unadd":
                if user is not None:
                    logger.remove(user)
                    user = None
            elif op == "direct":
                # an entry of the user, not of Log
                logger.log(v.upper(), f"direct {i}")
        except ValueError as ex:
            if want is not ValueError:
                raise Violation(f"{what}: raised {type(ex).__name__}: {ex}")
            result = ValueError
        if want is ValueError and result is not ValueError:
            raise Violation(f"{what}: accepted, expected ValueError")
        if op in ("write", "exception", "direct") and user is not None:
            written = op == "direct" or v.upper() in LEVELS and LEVELS[v.upper()] >= ref.no
            if written:
                ref.out.setdefault("C", []).append((v.upper(), f"direct {i}" if op == "direct" else f"entry {i}" if op == "write" else None))
        for name in ("A", "B", "out"):
            got = [parse(s, t0 - 100, time.time()) for s in lines(sinks[name].text(), what)]
            got = [g for g in got if not g[1].startswith("direct ")]
            match(got, ref.out.get(name, []), f"{what}: stream {name}")
        match([tuple(s.split(" ", 1)) for s in lines(sinks["C"].text(), what)], ref.out.get("C", []), f"{what}: stream of the user's handler")
        states.append((ref.no, ref.stream, sorted((k, len(v)) for k, v in ref.out.items()), user is not None))
    mark = [s for s in lines(ERR.text()) if "direct" not in s]
    need(not mark, f"after {seq}: written to standard error: {mark}")
    return states


def match(got, want, what):
    if len(got) != len(want):
        raise Violation(f"{what} has entries {got}, expected {want}")
    for g, w in zip(got, want):
        if g[0] != w[0] or (g[1] != w[1] if w[1] is not None else not ("KeyError" in g[1] and "c25.py" in g[1])):
            raise Violation(f"{what} has entry {g}, expected {w}")


PROBE = [("write", n) for n in ("trace", "Debug", "INFO", "success", "Warning", "Error", "critical")]


def run_case(spec):
    out = Out()
    k = spec["k"]
    if k == "ops":
        for tail in itertools.product(OPS, repeat=spec["depth"] - 2):
            seq = [OPS[i] for i in spec["head"]] + list(tail) + PROBE
            for s in isolated(perform, seq):
                out.state(s)
            out.transitions += len(seq)
            out.traces += 1
    else:
        n = isolated(globals()["check_" + k], *[spec[a] for a in ("i", "level") if a in spec])
        out.transitions += n
        out.traces += n
        out.state(spec)
    out.outcome = spec
    return out


def quiet():
    sinks = dict(A=Sink("A"), out=Sink("out"))
    sys.stdout, sys.stderr = sinks["out"], ERR
    return sinks


def check_text(i):
    s, n = quiet(), 0
    text = TEXTS[i]
    for name in ("out", "A"):
        if name == "A":
            Log.stream(s["A"])
        for level in LEVELS:
            Log.level(level)
            for entry in (text, text + "x", "x" + text):
                t0 = time.time()
                k = len(s[name].text())
                Log.write(level, entry)
                got = s[name].text()[k:]
                need(got.endswith("\n"), f"text {entry!r}: {got!r}")
                need(parse(got[:-1], t0, time.time()) == (level, entry), f"text {entry!r} of level {level} is written as {got!r}")
                n += 1
    return n


def check_matrix(level):
    s, n = quiet(), 0
    Log.stream(s["A"])
    for spell in (str.upper, str.lower, str.title, lambda v: v[0].lower() + v[1:].upper()):
        Log.level(spell(level))
        for entry in LEVELS:
            for spell2 in (str.upper, str.lower, str.title):
                k = len(s["A"].text())
                Log.write(spell2(entry), "text")
                got = s["A"].text()[k:]
                if LEVELS[entry] >= LEVELS[level]:
                    need(got.endswith("\n") and parse(got[:-1]) == (entry, "text"), f"entry {spell2(entry)} at level {spell(level)} is written as {got!r}")
                else:
                    need(got == "", f"entry {spell2(entry)} at level {spell(level)} is written as {got!r}")
                n += 1
    need(s["out"].text() == "", f"written to standard output: {s['out'].text()!r}")
    return n


def check_custom():
    s, n = quiet(), 0
    custom = dict(NOTICE=22, FATAL=60, NOISE=1, MID=30, NIL=0)
    for name, no in custom.items():
        for f, v in ((Log.level, (name,)), (Log.write, (name, "x"))):
            try:
                f(*v)
            except ValueError:
                pass
            else:
                raise Violation(f"level {name} accepted before it was defined")
        logger.level(name, no=no)
    levels = dict(LEVELS, **custom)
    Log.stream(s["A"])
    for level in levels:
        for spell in (str.upper, str.lower, str.title):
            Log.level(spell(level))
            for entry in levels:
                k = len(s["A"].text())
                Log.write(spell(entry), "text")
                got = s["A"].text()[k:]
                if levels[entry] >= levels[level]:
                    need(got.endswith("\n") and parse(got[:-1]) == (entry, "text"), f"entry {entry} at level {level} is written as {got!r}")
                else:
                    need(got == "", f"entry {entry} at level {level} is written as {got!r}")
                n += 1
    return n


class Odd(Exception):
    def __str__(self):
        return "odd {} <red> message"


def raiser(depth, ex):
    if depth:
        raiser(depth - 1, ex)
    raise ex                                                # the line raised at


def other():
    raise LookupError("other")


RAISED = raiser.__code__.co_firstlineno + 3


def check_errors():
    s, n = quiet(), 0
    Log.stream(s["A"])
    for ex in (ValueError("message"), KeyError("key"), Odd(), RuntimeError(""), ZeroDivisionError("{0}"), OSError(2, "none"), type("Mine", (Exception,), {})("m"), ValueError("long " * 100), ValueError("x" * 70000), RuntimeError("m" * 600)):
        for depth in (0, 1, 3, 40):
            for nested in (False, True, "cause", "context", "none", "notes"):
                t = type(ex)
                k = len(s["A"].text())
                try:
                    ex.__traceback__ = None
                    ex.__cause__ = ex.__context__ = None
                    if nested in ("cause", "context", "none"):
                        # raised while another one, which was raised elsewhere, is handled
                        try:
                            other()
                        except LookupError as first:
                            if nested == "cause":
                                ex.__cause__ = first
                            elif nested == "none":
                                ex.__suppress_context__ = True
                            raiser(depth, ex)
                    if nested == "notes":
                        ex.add_note("a note")
                    raiser(depth, ex)
                except Exception as caught:
                    if nested is True:
                        try:
                            raise LookupError("another")
                        except LookupError:
                            Log.write("Error", caught)
                    else:
                        Log.write("Error", caught)
                got = s["A"].text()[k:]
                need(got.endswith("\n") and got.count("\n") == 1, f"{ex!r}: {got!r}")
                level, text = parse(got[:-1])
                need(level == "ERROR" and t.__name__ in text and str(ex) in text, f"{ex!r} is written as {text!r}")
                need("c25.py" in text and f"{RAISED}" in text.split(), f"{ex!r} ({nested}) raised at line {RAISED} of c25.py is written as {text!r}")
                n += 1
        # neither raised nor caught here
        k = len(s["A"].text())
        Log.write("critical", type("Fresh", (Exception,), {})("unraised"))
        level, text = parse(s["A"].text()[k:-1])
        need(level == "CRITICAL" and "Fresh" in text and "unraised" in text, f"exception that was not raised is written as {text!r}")
        Log.level("Critical")
        k = len(s["A"].text())
        Log.write("Error", ex)
        need(s["A"].text()[k:] == "", f"{ex!r} is written below the level")
        Log.level("Info")
    return n


def check_file():
    import tempfile

    s, n = quiet(), 0
    with tempfile.TemporaryDirectory() as d:
        paths = [os.path.join(d, f"{i}.txt") for i in range(3)]
        Log.write("Info", "first")
        for p in paths:
            with open(p, "w") as f:
                Log.stream(f)
                for i in range(5):
                    Log.write("Info", f"entry {i}")
                    Log.write("Debug", f"entry {i}")
                    n += 1
                Log.stream(s["A"])
                Log.write("Info", "between")
        with open(paths[0], "a") as f:
            Log.stream(f)
            Log.write("Info", "appended")
            Log.stream(sys.stdout)
        Log.write("Info", "last")
        for p in paths:
            got = [parse(v) for v in lines(open(p).read())]
            need(got == [("INFO", f"entry {i}") for i in range(5)] + ([("INFO", "appended")] if p == paths[0] else []), f"file has {got}")
    need([parse(v)[1] for v in lines(s["A"].text())] == ["between"] * 3, f"memory has {s['A'].text()}")
    need([parse(v)[1] for v in lines(s["out"].text())] == ["first", "last"], f"standard output has {s['out'].text()}")
    m = io.StringIO()
    Log.stream(m)
    Log.write("Info", "memory")
    m.truncate(0), m.seek(0)
    Log.write("Info", "again")
    need([parse(v)[1] for v in lines(m.getvalue())] == ["again"], f"memory has {m.getvalue()!r}")
    return n


def check_removed():
    """handlers of the user, present before and after the first operation of Log"""
    s, n = quiet(), 0
    logger.remove()
    mine = [Sink("a"), Sink("b"), Sink("c")]
    ids = [logger.add(mine[0], format="{message}", level=0), logger.add(mine[1], format="{message}", level="ERROR")]
    Log.write("Info", "one")
    Log.stream(s["A"])
    Log.write("Error", "two")
    ids.append(logger.add(mine[2], format="{message}", level=0))
    Log.stream(s["out"])
    Log.stream(s["A"])
    Log.write("Critical", "three")
    Log.write("Debug", "four")
    Log.level("Debug")
    Log.write("Debug", "five")
    got = [[v for v in lines(m.text())] for m in mine]
    need(got == [["one", "two", "three", "five"], ["two", "three"], ["three", "five"]], f"handlers of the user received {got}")
    need([parse(v)[1] for v in lines(s["out"].text())] == ["one"], f"standard output has {s['out'].text()!r}")
    need([parse(v)[1] for v in lines(s["A"].text())] == ["two", "three", "five"], f"stream has {s['A'].text()!r}")
    for i in ids:
        logger.remove(i)        # raises unless the handler is still there
        n += 1
    need(ERR.text() == "", f"standard error has {ERR.text()!r}")
    return n


class Equal(Sink):
    """A stream which compares equal to any other."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


def check_equal():
    """every sequence of streams which compare equal, and which are closed or not when they are replaced"""
    s, n = quiet(), 0
    files = []
    for word in itertools.product("EFAoc", repeat=3):
        sinks = dict(E=Equal("E"), F=Equal("F"), A=Sink("A"), o=s["out"])
        counts = {"o": len(s["out"].text())}
        want = {k: [] for k in sinks}
        for i, k in enumerate(word):
            if k == "c":
                files.append(io.StringIO())
                Log.stream(files[-1])
                Log.write("Info", f"{i}")
                need([parse(v)[1] for v in lines(files[-1].getvalue())] == [f"{i}"], f"streams {word}: a new stream has {files[-1].getvalue()!r}")
                files[-1].close()
                continue
            Log.stream(sinks[k])
            Log.write("Error", f"entry {i}")
            Log.write("Debug", f"entry {i}")
            want[k].append(("ERROR", f"entry {i}"))
            n += 3
        for k in sinks:
            got = [parse(v) for v in lines(sinks[k].text()[counts.get(k, 0):])]
            need(got == want[k], f"streams {word}: {k} has {got}, expected {want[k]}")
        Log.stream(sinks["A"])
    return n


def check_badstreams():
    s, n = quiet(), 0
    for first in (False, True):
        for bad in (None, 0, 5, "", "name", object(), [], {}, lambda: 0, b"", open):
            if first:
                Log.stream(s["A"])
            k = {name: len(v.text()) for name, v in s.items()}
            try:
                Log.stream(bad)
            except ValueError:
                pass
            else:
                raise Violation(f"stream {bad!r} accepted")
            Log.write("Info", "text")
            target = "A" if first else "out"
            for name in s:
                got = s[name].text()[k[name]:]
                need([parse(v) for v in lines(got)] == ([("INFO", "text")] if name == target else []), f"after stream {bad!r} rejected, {name} has {got!r}")
            for level in ("", "none", "INF", "Info ", None, 20, 5.0, []):
                for f in (lambda: Log.level(level), lambda: Log.write(level, "text")):
                    try:
                        f()
                    except ValueError:
                        pass
                    else:
                        raise Violation(f"level {level!r} accepted")
                    n += 1
            n += 1
    return n
