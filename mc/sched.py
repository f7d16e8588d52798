"""Controlled scheduler: exhaustive exploration of thread interleavings of the real code, up to a preemption bound.

install() replaces the lock factories of `threading` by shims before the library is imported. Threads of an execution run one
at a time; at every scheduling point (a line, or an instruction, of the traced files; a lock operation; an explicit point of
the harness) the schedule chooses who continues. Schedules are enumerated depth first, without repetition."""
import _thread
import dis
import gc
import sys
import threading
import time
import types

from mc.core import HarnessError

_real_lock, _real_rlock = threading.Lock, threading.RLock
_active = None


class _Shim(object):
    """A lock which asks the scheduler instead of blocking, when a controlled thread uses it."""

    _make = None

    def __init__(self):
        self._lock = self._make()

    def acquire(self, blocking=True, timeout=-1):
        s = _active
        me = s.me() if s is not None else None
        if me is None:
            return self._lock.acquire(blocking, timeout) if timeout is not None else self._lock.acquire(blocking)
        s.point(me, "acquire")
        while not self._lock.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                # a timed wait may always give up
                s.point(me, "timeout")
                return self._lock.acquire(False)
            s.block(me, self)
        return True

    def release(self):
        self._lock.release()
        if _active is not None:
            _active.unblock(self)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._lock.locked()

    def __getattr__(self, name):
        if name == "_lock":
            raise AttributeError(name)
        return getattr(self._lock, name)

    def __reduce__(self):
        raise TypeError("cannot pickle a lock")


class LockShim(_Shim):
    _make = staticmethod(_real_lock)


class RLockShim(_Shim):
    _make = staticmethod(_real_rlock)

    # used by threading.Condition
    def _release_save(self):
        v = self._lock._release_save()
        if _active is not None:
            _active.unblock(self)
        return v

    def _acquire_restore(self, v):
        self.acquire()
        self._lock.release()
        self._lock._acquire_restore(v)

    def _is_owned(self):
        return self._lock._is_owned()


def install():
    """To be called before the library under test (and loguru) is imported."""
    threading.Lock, threading.RLock = LockShim, RLockShim
    threading._allocate_lock = LockShim


# instructions which have no effect on, and do not depend on, what other threads see: a preemption before one of them is a
# preemption before the next other one
LOCAL = {
    "CACHE", "NOP", "RESUME", "PUSH_NULL", "KW_NAMES", "LOAD_CONST", "RETURN_CONST", "RETURN_VALUE", "LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "STORE_FAST", "COPY", "SWAP",
    "JUMP_FORWARD", "JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT", "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE", "IS_OP", "BUILD_TUPLE", "BUILD_LIST", "BUILD_SLICE", "COPY_FREE_VARS", "MAKE_CELL", "EXTENDED_ARG",
}
TOOL = 4
_codes = {}


def codes(files):
    """the code objects of the files, with the offsets of their instructions which may interact with other threads"""
    if files not in _codes:
        found, todo = {}, [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)]
        while todo:
            c = todo.pop()
            if id(c) not in found and any(c.co_filename.endswith(f) if f.endswith(".py") else f in c.co_filename for f in files):
                found[id(c)] = (c, frozenset(i.offset for i in dis.get_instructions(c) if i.opname not in LOCAL))
                todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
        _codes[files] = found
    return _codes[files]


def instrument(files, opcodes):
    """events of the code of the files, and of no other, are reported from here to the end of the process. They are set before
    there are threads: the tracing of the interpreter, which instruments code anew when a thread starts to trace, may fail."""
    m, found = sys.monitoring, codes(files)

    def event(code, at):
        s = _active
        me = s.ids.get(_thread.get_ident()) if s is not None else None
        if me is None or (opcodes and at not in found[id(code)][1]):
            return
        if s.visits is not None:
            # a point only at the first executions of a line by a thread
            k = (me, id(code), at)
            c = s.count[k] = s.count.get(k, 0) + 1
            if c > s.visits:
                return
        s.point(me, at)

    m.use_tool_id(TOOL, "mc")
    kind = m.events.INSTRUCTION if opcodes else m.events.LINE
    m.register_callback(TOOL, kind, event)
    for c, _ in found.values():
        m.set_local_events(TOOL, c, kind)


class Scheduler(object):
    def __init__(self, bodies, prefix, files, opcodes=False, limit=20000, visits=None):
        self.bodies, self.prefix, self.files, self.opcodes, self.limit = bodies, list(prefix), files, opcodes, limit
        self.visits, self.count = visits, {}
        n = len(bodies)
        self.gate = [_thread.allocate_lock() for _ in range(n)]
        for g in self.gate:
            g.acquire()
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.state = ["ready"] * n
        self.on = [None] * n
        self.ids = {}
        self.decisions = []         # (enabled, current or None, chosen)
        self.clock = 0
        self.deadlock = None
        self.problem = None
        self.points = 0

    def me(self):
        return self.ids.get(_thread.get_ident())

    def enabled(self):
        return tuple(t for t in range(len(self.state)) if self.state[t] == "ready")

    def choose(self, current):
        e = self.enabled()
        if not e:
            return None
        if len(e) == 1:
            return e[0]
        k = len(self.decisions)
        if k < len(self.prefix):
            c = self.prefix[k]
            if c not in e:
                self.problem = f"schedule {self.prefix} does not repeat at decision {k}: {c} is not in {e}"
                c = e[0]
        else:
            c = current if current in e else e[0]
        self.decisions.append((e, current if current in e else None, c))
        return c

    def switch(self, me, to):
        """passes control; returns when me is scheduled again"""
        if to == me:
            return
        self.gate[to].release()
        self.gate[me].acquire()

    def point(self, me, where=None):
        if self.problem:
            return
        self.clock += 1
        self.points += 1
        if self.points > self.limit:
            self.problem = f"more than {self.limit} scheduling points"
            return
        self.switch(me, self.choose(me))

    def block(self, me, lock):
        self.state[me], self.on[me] = "blocked", lock
        self.clock += 1
        to = self.choose(None)
        if to is None:
            self.deadlock = [t for t in range(len(self.state)) if self.state[t] == "blocked"]
            self.main.release()
            self.gate[me].acquire()         # for ever
        self.switch(me, to)

    def unblock(self, lock):
        for t in range(len(self.state)):
            if self.state[t] == "blocked" and self.on[t] is lock:
                self.state[t], self.on[t] = "ready", None

    def body(self, t):
        self.ids[_thread.get_ident()] = t
        self.gate[t].acquire()
        try:
            self.bodies[t](self)
        except BaseException as ex:
            self.problem = self.problem or f"thread {t}: {type(ex).__name__}: {ex}"
        finally:
            self.state[t] = "done"
            to = self.choose(None)
            if to is None:
                if any(s == "blocked" for s in self.state):
                    self.deadlock = [u for u in range(len(self.state)) if self.state[u] == "blocked"]
                self.main.release()
            else:
                self.gate[to].release()

    def run(self):
        """one execution; the threads that remain blocked are abandoned with the process"""
        global _active
        instrument(self.files, self.opcodes)
        _active = self
        for t in range(len(self.bodies)):
            _thread.start_new_thread(self.body, (t,))
        while len(self.ids) < len(self.bodies):
            time.sleep(0)
        first = self.choose(None)
        self.gate[first].release()
        self.main.acquire()
        _active = None
        if self.problem:
            raise HarnessError(self.problem)
        return self


def explore(run, bound, part=(0, 1), seconds=None):
    """Every schedule of at most `bound` preemptions, those of fewer preemptions first. run(prefix) -> decisions.

    `part` = (i, n): of the schedules with preemptions only those of the i-th of n parts of first preemptions. Returns the
    number of schedules and the bound which was completed within `seconds`."""
    todo = [[()]] + [[] for _ in range(bound)]
    n, k, end = 0, 0, time.time() + (seconds or 1e9)
    for level in range(bound + 1):
        while todo[level]:
            if time.time() > end:
                return n, level - 1
            prefix = todo[level].pop()
            decisions = run(prefix)
            n += 1
            chosen = [d[2] for d in decisions]
            cost = 0
            for i, (enabled, current, c) in enumerate(decisions):
                if i >= len(prefix):
                    for alt in enabled:
                        extra = cost + (current is not None and alt != current)
                        if alt != c and extra <= bound:
                            if level == 0 and extra > 0:
                                k += 1
                                if k % part[1] != part[0]:
                                    continue
                            todo[extra].append(tuple(chosen[:i]) + (alt,))
                cost += current is not None and c != current
    return n, bound
