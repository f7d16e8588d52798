"""C26: every interleaving, up to a preemption bound, of threads which operate on Log, against sequential orders of the reference."""
import itertools
import os
import sys

from mc import sched

sys_stderr = sys.stderr
from mc.logref import Sink

ERR = Sink("stderr")
if "diamondback" not in sys.modules:
    sched.install()
    if not os.environ.get("MC_KEEP_STDERR"):
        sys.stderr = ERR            # the handler which loguru creates on import
try:
    from diamondback import Log
finally:
    sys.stderr = sys_stderr

from mc.core import HarnessError, Out, Violation
from mc.fork import isolated
from mc.logref import Ref, lines, parse

ID, LEVEL = "C26", "model_checking"
RULE = (
    "case = (scenario, granularity, part): every schedule of at most the stated number of preemptions of the threads of the scenario, each in a process of its own; threads may be preempted at every line (or "
    "every instruction) of the library, at every acquisition of a lock and within every write to a stream. The entries of every stream have to be those of a sequential order of the operations on the reference. "
    "State = contents of the streams with the order of the schedule. Nontrivial: two or more schedules."
)
ASSUMPTIONS = [
    "threads are preempted at lines or instructions of the library, at lock acquisitions and in streams, not within other instructions of loguru",
    "more preemptions than the bound, or more threads and operations than the scenarios, are not explored",
]
W = lambda level, text: ("write", level, text)
SCENARIOS = {
    "first writes": [[W("Info", "a")], [W("Error", "b")]],
    "first write and stream": [[W("Info", "a")], [("stream", "A")]],
    "first write and level": [[W("Info", "a")], [("level", "Error")]],
    "two streams": [[("stream", "A")], [("stream", "B")], ],
    "stream, write / write": [[("stream", "A"), W("Info", "a")], [W("Info", "b")]],
    "stream, write / stream, write": [[("stream", "A"), W("Info", "a")], [("stream", "B"), W("Info", "b")]],
    "level, stream / write": [[("level", "Error"), ("stream", "A")], [W("Info", "a")]],
    "stream, level / write": [[("stream", "A"), ("level", "Debug")], [W("Debug", "a")]],
    "level, level / write": [[("level", "Error"), ("level", "Debug")], [W("Debug", "a")]],
    "writes / writes": [[W("Info", "a"), W("Error", "b")], [W("Info", "c"), W("Debug", "d")]],
    "errors": [[("level", "Nope"), W("Info", "a")], [W("Nope", "b"), ("level", "Error")]],
    "error and exception": [[("exception", "Error", "a")], [("stream", "A"), W("Info", "c")]],
    "three writes": [[W("Info", "a")], [W("Info", "b")], [W("Error", "c")]],
    "write, level, stream": [[W("Info", "a")], [("level", "Error")], [("stream", "A")]],
    "rejected stream": [[("badstream", None), W("Info", "a")], [("stream", "A")]],
}
WARM = {
    "redirected: write / stream": ([("stream", "A"), W("Info", "w")], [[W("Info", "a"), W("Info", "b")], [("stream", "B")]]),
    "redirected: write / level": ([("stream", "A"), W("Info", "w")], [[W("Info", "a"), W("Info", "b")], [("level", "Error")]]),
    "redirected: writes": ([("stream", "A"), W("Info", "w")], [[W("Info", "a")], [W("Info", "b")], [("stream", "B")]]),
    "raised level: write / write": ([("level", "Error"), W("Error", "w")], [[W("Info", "a"), ("level", "Info")], [W("Info", "b"), W("Error", "c")]]),
}
FILES = ("/diamondback/",)


def plan(tier):
    quick = tier == "quick"
    for name in list(SCENARIOS) + list(WARM):
        threads = len(SCENARIOS[name] if name in SCENARIOS else WARM[name][1])
        yield name, False, (2 if threads == 2 else 1) + (not quick)
        yield name, True, 1 + (not quick and threads == 2)


def cases(tier, seed):
    quick = tier == "quick"
    parts = 4 if quick else 16
    for name, opcodes, bound in plan(tier):
        for i in range(parts):
            yield dict(scenario=name, opcodes=opcodes, bound=bound, part=[i, parts], seconds=60 if quick else 900)


BATCH = 1
CASE_SECONDS = 2000


def operate(op, state):
    """True: done; ValueError: rejected"""
    try:
        if op[0] == "write":
            Log.write(op[1], op[2])
        elif op[0] == "exception":
            Log.write(op[1], RuntimeError(op[2]))
        elif op[0] == "level":
            Log.level(op[1])
        elif op[0] == "stream":
            Log.stream(state[op[1]])
        elif op[0] == "badstream":
            Log.stream(5)
    except ValueError:
        return ValueError
    return True


def reference(ref, op):
    if op[0] == "write":
        return ref.write(op[1], op[2]) or True
    if op[0] == "exception":
        return ref.write(op[1], "Exception = RuntimeError " + op[2]) or True
    if op[0] == "level":
        return ref.level(op[1]) or True
    if op[0] == "stream":
        ref.redirect(op[1])
        return True
    return ValueError


PROBE = [("write", n, "probe " + n) for n in ("Debug", "Info", "Error")]


def execution(scenario, opcodes, prefix):
    before, threads = ([], SCENARIOS[scenario]) if scenario in SCENARIOS else WARM[scenario]
    box = []

    def hook():
        s = sched._active
        me = s.me() if s is not None else None
        if me is not None:
            s.point(me, "stream")

    sinks = {n: Sink(n, hook) for n in ("A", "B", "out")}
    sys.stdout, sys.stderr = sinks["out"], ERR
    for op in before:
        operate(op, sinks)
    events = []         # (thread, index, call, return, result)

    def body(ops):
        def f(s):
            me = s.me()
            for i, op in enumerate(ops):
                s.clock += 1
                t0 = s.clock
                r = operate(op, sinks)
                s.clock += 1
                events.append((me, i, t0, s.clock, r))

        return f

    s = sched.Scheduler([body(ops) for ops in threads], prefix, FILES, opcodes).run()
    if s.deadlock:
        raise Violation(f"{scenario}: deadlock of threads {s.deadlock}", None)
    for op in PROBE:
        operate(op, sinks)
    got = {n: tuple(parse(v) for v in lines(sinks[n].text(), f"{scenario}, stream {n}")) for n in sinks}
    return s.decisions, s.points, sorted(events), got, ERR.text()


def explain(scenario, events, got):
    """a sequential order of the operations with the same result, or None"""
    before, threads = ([], SCENARIOS[scenario]) if scenario in SCENARIOS else WARM[scenario]
    base = Ref("out")
    for op in before:
        reference(base, op)
    n = len(events)
    must = [[events[i][3] < events[j][2] for j in range(n)] for i in range(n)]

    def search(ref, left, order):
        if not left:
            end = ref.copy()
            for op in PROBE:
                reference(end, op)
            if all(tuple(end.out.get(name, ())) == got[name] for name in got):
                return order
            return None
        for i in left:
            if any(must[j][i] for j in left if j != i):
                continue
            r = ref.copy()
            if reference(r, threads[events[i][0]][events[i][1]]) != events[i][4]:
                continue
            found = search(r, left - {i}, order + [i])
            if found is not None:
                return found
        return None

    return search(base, frozenset(range(n)), [])


def run_case(spec):
    out = Out()
    scenario, opcodes = spec["scenario"], spec["opcodes"]
    sched.codes(FILES)

    def run(prefix):
        decisions, points, events, got, err = isolated(execution, scenario, opcodes, prefix, seconds=60)
        what = f"{scenario}: schedule {list(prefix)}: operations (thread, index, call, return, result) {events}"
        if err:
            raise Violation(f"{what}: written to standard error: {err[-300:]!r}")
        order = explain(scenario, events, got)
        if order is None:
            raise Violation(f"{what}: streams {got} are not those of a sequential order")
        out.state(scenario, order, sorted(got.items()))
        out.transitions += points
        out.traces += 1
        return decisions

    n, done = sched.explore(run, spec["bound"], spec["part"], spec["seconds"])
    if done < 1:
        raise HarnessError(f"{scenario}: not even one preemption explored within {spec['seconds']} s")
    out.incomplete = done < spec["bound"]
    out.evaluations = n
    out.outcome = [spec["scenario"], spec["opcodes"], done]
    out.trivial = n < 2
    return out


def evidence(tier):
    return dict(preemption_bounds={f"{n}, {'instructions' if o else 'lines'}": b for n, o, b in plan(tier)}, schedules_counted_as="traces_validated_against_impl")
