"""Bounded exhaustive exploration engine.

A check module defines
    ID, LEVEL, RULE, ASSUMPTIONS
    cases(tier, seed)  -> iterable of JSON-able case specifications: the whole bounded space
    run_case(spec)     -> Out  (raises Violation when the property is broken)
Every case is executed on fresh objects of the real code; nothing is sampled.  The engine spreads
the cases over processes, measures what was covered, and writes the evidence file.
"""
import hashlib
import importlib
import itertools
import json
import os
import pathlib
import signal
import sys
import time
import traceback
import warnings

ROOT = pathlib.Path(__file__).resolve().parent.parent
WORKERS = int(os.environ.get("MC_WORKERS", "8"))
CASE_SECONDS = int(os.environ.get("MC_CASE_SECONDS", "100"))


class Violation(Exception):
    """The property does not hold for this case. `key` names a specific failing input."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class HarnessError(Exception):
    """The machinery itself misbehaved: never reported as a violation."""


class CaseTimeout(BaseException):
    pass


class Out(object):
    """What one executed case covered."""

    __slots__ = ("states", "transitions", "traces", "evaluations", "trivial", "outcome", "findings", "incomplete")

    def __init__(self):
        self.states = set()      # hashes of canonical model states reached
        self.transitions = 0     # operations executed on the implementation
        self.traces = 0          # complete histories compared with the reference
        self.evaluations = 0
        self.trivial = False
        self.outcome = None      # hash of the observed outcome
        self.findings = []       # (key, message)
        self.incomplete = False  # a bound was not reached within the time of the case

    def state(self, *v):
        self.states.add(h64(v))


def h64(v):
    return int.from_bytes(hashlib.blake2b(canon(v).encode(), digest_size=8).digest(), "big")


def canon(v):
    import numpy

    if isinstance(v, numpy.ndarray):
        return "[" + ",".join(canon(u) for u in v.ravel().tolist()) + "]" + str(v.shape)
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(canon(u) for u in v) + "]"
    if isinstance(v, dict):
        return "{" + ",".join(f"{k}:{canon(v[k])}" for k in sorted(v, key=str)) + "}"
    if isinstance(v, bool) or v is None or isinstance(v, (str, int)):
        return repr(v)
    if isinstance(v, (complex, numpy.complexfloating)):
        return f"{v.real:.9e}{v.imag:+.9e}j"
    if isinstance(v, (float, numpy.floating)):
        return f"{float(v):.9e}"
    return repr(v)


_WATCH = [0.0, 0, 0]


def _cpu():
    t = os.times()
    return t[0] + t[1] + t[2] + t[3]


def _alarm(*_):
    # on a machine which is busy with something else a case gets up to four times its seconds
    seconds = _WATCH[1]
    if _cpu() - _WATCH[0] < 0.5 * seconds and _WATCH[2] < 3:
        _WATCH[2] += 1
        signal.alarm(seconds)
        return
    raise CaseTimeout()


def execute(module, spec):
    """Runs one case: ('ok', Out) | ('violation', message, key) | ('error', text)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    seconds = getattr(module, "CASE_SECONDS", CASE_SECONDS)
    _WATCH[:] = [_cpu(), seconds, 0]
    signal.alarm(seconds)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = module.run_case(spec)
        return ("ok", out)
    except Violation as ex:
        return ("violation", str(ex), ex.key)
    except HarnessError:
        return ("error", traceback.format_exc())
    except CaseTimeout:
        return ("violation", "no result: the code under test did not terminate", None)
    except (MemoryError, OSError) as ex:
        # of the machine, unless it was raised within the library
        frames = traceback.extract_tb(ex.__traceback__)
        if not any("/diamondback/" in f.filename for f in frames):
            return ("error", traceback.format_exc())
        return ("violation", f"raised {type(ex).__name__}: {ex}\n" + traceback.format_exc()[-1500:], None)
    except Exception as ex:
        # inside the domain of the property the code has to answer: raising, or answering with
        # something that cannot even be compared, is a violation
        tb = traceback.format_exc().strip().splitlines()
        return ("violation", f"raised {type(ex).__name__}: {ex}\n" + "\n".join(tb[-6:]), None)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


_MODULE = None


def _init(name):
    global _MODULE
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _MODULE = importlib.import_module(name)
    if hasattr(_MODULE, "setup_worker"):
        _MODULE.setup_worker()


def _batch(specs):
    res, agg = [], Out()
    agg.states = set()
    n, outcomes, trivial, partial = 0, set(), 0, 0
    for spec in specs:
        r = execute(_MODULE, spec)
        if r[0] == "ok":
            o = r[1]
            n += 1
            agg.states |= o.states
            agg.transitions += o.transitions
            agg.traces += o.traces
            agg.evaluations += max(o.evaluations, 1)
            trivial += bool(o.trivial)
            partial += bool(o.incomplete)
            if o.outcome is not None:
                outcomes.add(h64(o.outcome))
            for f in o.findings:
                res.append(("violation", spec, f[1], f[0]))
        else:
            res.append((r[0], spec) + tuple(r[1:]))
    return n, agg.states, agg.transitions, agg.traces, agg.evaluations, trivial, outcomes, res, partial


def chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c:
            return
        yield c


def known_findings(pid):
    keys = {}
    f = ROOT / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("known: "):
                w = dict(t.split("=", 1) for t in line[7:].split()[:2])
                if w.get("property") == pid:
                    keys[w["key"]] = " ".join(line[7:].split()[2:])
    return keys


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ["VERIF_TIER"] = tier
    name = f"mc.checks.{pid.lower()}"
    module = importlib.import_module(name)
    cap = float(os.environ.get("MC_CAP_SECONDS", 600 if tier == "quick" else 780))
    size = getattr(module, "BATCH", 16)
    fork = getattr(module, "WORKERS", WORKERS)
    n = transitions = traces = evaluations = trivial = partial = 0
    states, outcomes, bad, errors = set(), set(), [], []
    samples, ncases, complete = [], 0, True

    def gen():
        nonlocal ncases
        for spec in module.cases(tier, seed):
            ncases += 1
            if len(samples) < 3 or (len(samples) < 6 and ncases % 997 == 0):
                samples.append(spec)
            yield spec

    import multiprocessing

    ctx = multiprocessing.get_context("fork")
    if hasattr(module, "prepare"):
        module.prepare(tier, seed)
    import concurrent.futures as cf

    pool = cf.ProcessPoolExecutor(max_workers=fork, mp_context=ctx, initializer=_init, initargs=(name,))
    try:
        pending, source, exhausted = set(), chunks(gen(), size), False
        while True:
            while not exhausted and len(pending) < 6 * fork:
                b = next(source, None)
                if b is None:
                    exhausted = True
                    break
                pending.add(pool.submit(_batch, b))
            if not pending:
                break
            done, pending = cf.wait(pending, timeout=5, return_when=cf.FIRST_COMPLETED)
            for d in done:
                a = d.result()
                n += a[0]
                states |= a[1]
                transitions += a[2]
                traces += a[3]
                evaluations += a[4]
                trivial += a[5]
                outcomes |= a[6]
                partial += a[8]
                for r in a[7]:
                    (bad if r[0] == "violation" else errors).append(r)
            unlisted = [b for b in bad if b[3] not in known_findings(pid)]
            if len(unlisted) >= int(os.environ.get("MC_STOP", 20)) or len(errors) >= 20:
                complete = False
                for p in pending:
                    p.cancel()
                break
            if time.time() - t0 > cap:
                complete = exhausted and not pending
                for p in pending:
                    p.cancel()
                if not complete:
                    print(f"cap of {cap:.0f} s reached: exploration incomplete")
                break
    finally:
        procs = list((getattr(pool, "_processes", None) or {}).values())
        pool.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            try:
                p.kill()
            except Exception:
                pass
    known = known_findings(pid)
    hit = {}
    violations = []
    for _, spec, msg, key in bad:
        if key is not None and key in known:
            hit[key] = msg
        else:
            violations.append((spec, msg))
    for key in sorted(hit):
        print(f"KNOWN-FINDING: property={pid} {key} {known[key]}")
    rc = 0
    if errors:
        print(f"{len(errors)} cases ended in an error of the machinery")
        print(json.dumps(errors[0][1])[:2000])
        print(errors[0][2])
        rc = 2
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v[0])))
        (ROOT / "replays").mkdir(exist_ok=True)
        for k, (spec, msg) in enumerate(violations[:3]):
            path = ROOT / "replays" / f"{pid}-{k}.json"
            path.write_text(json.dumps(dict(property=pid, module=name, spec=spec, message=msg), indent=1))
            if k == 0:
                print(msg[:3000])
            print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    wall = time.time() - t0
    cov = dict(
        evaluations=evaluations,
        distinct_nontrivial=max(len(outcomes), 0) if outcomes else n - trivial,
        rule=module.RULE,
        samples=samples[:6],
        cases=ncases,
        exhaustive=bool(complete and not errors and not partial),
        cases_of_incomplete_bound=partial,
    )
    if module.LEVEL == "model_checking":
        cov.update(states=len(states), transitions=transitions, traces_validated_against_impl=traces)
    else:
        cov.update(operations=transitions)
    if hasattr(module, "evidence"):
        cov.update(module.evidence(tier))
    ev = dict(
        property=pid, tier=tier, seed=seed, level=module.LEVEL, coverage=cov,
        assumptions=list(module.ASSUMPTIONS), wall_s=round(wall, 3), violations=len(violations),
    )
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    print(
        f"{pid} {tier}: cases={ncases} evaluations={evaluations} states={len(states)} transitions={transitions} "
        f"traces={traces} outcomes={len(outcomes)} violations={len(violations)} exhaustive={cov['exhaustive']} wall={wall:.1f}s"
    )
    sys.stdout.flush()
    return rc
