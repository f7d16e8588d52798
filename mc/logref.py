"""Reference of Log as a sequential object, and the reading of written lines."""
import datetime
import io

from mc.core import Violation

LEVELS = dict(TRACE=5, DEBUG=10, INFO=20, SUCCESS=25, WARNING=30, ERROR=40, CRITICAL=50)


class Sink(object):
    """A stream that records what is written to it."""

    def __init__(self, name, hook=None):
        self.name, self.hook, self.parts = name, hook, []

    def write(self, v):
        if self.hook:
            # what is written arrives in two pieces, with a point at which another thread may run
            k = len(v) // 2
            self.parts.append(v[:k])
            self.hook()
            self.parts.append(v[k:])
        else:
            self.parts.append(v)
        return len(v)

    def flush(self):
        pass

    def text(self):
        return "".join(self.parts)


def parse(line, before=None, after=None):
    """(level, text) of one line without its end"""
    time, _, rest = line.partition(" ")
    level, sep, text = rest.partition(" ")
    if not sep:
        raise Violation(f"line {line!r} is not a time, a level and a text")
    try:
        if "T" not in time:
            raise ValueError(time)
        t = datetime.datetime.fromisoformat(time)
    except ValueError:
        raise Violation(f"line {line!r} does not begin with an ISO 8601 time")
    if t.tzinfo is None:
        raise Violation(f"line {line!r}: the time has no zone")
    if before is not None and not before - 1.0 <= t.timestamp() <= after + 1.0:
        raise Violation(f"line {line!r}: written between {before} and {after}")
    return level, text


def lines(text, what=""):
    if not text:
        return []
    if not text.endswith("\n"):
        raise Violation(f"{what}: text {text[-80:]!r} does not end with a line")
    return text[:-1].split("\n")


class Ref(object):
    """level, stream and the entries which each stream has to contain"""

    def __init__(self, default, levels=LEVELS):
        self.levels = dict(levels)
        self.no, self.stream, self.default = 20, None, default
        self.out = {}

    def copy(self):
        r = Ref(self.default, self.levels)
        r.no, r.stream = self.no, self.stream
        r.out = {k: list(v) for k, v in self.out.items()}
        return r

    def level(self, name):
        if name.upper() not in self.levels:
            return ValueError
        self.no = self.levels[name.upper()]

    def redirect(self, name):
        self.stream = name

    def write(self, level, text):
        """the level of the entry is written in upper case"""
        if self.stream is None:
            self.stream = self.default
        if level.upper() not in self.levels:
            return ValueError
        if self.levels[level.upper()] >= self.no:
            self.out.setdefault(self.stream, []).append((level.upper(), text))
