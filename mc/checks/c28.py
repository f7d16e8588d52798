"""C28: every combination of the parts of a request, and every sequence of server behaviours, against a scripted loopback server."""
import base64
import copy
import gzip
import http.client
import itertools
import json
import os
import socket
import time
import urllib.parse

for _n in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY", "no_proxy", "NO_PROXY", "REQUESTS_CA_BUNDLE"):
    os.environ.pop(_n, None)

from diamondback import RestClient

from mc.core import HarnessError, Out, Violation
from mc.server import Server
from mc.util import need, rejects

ID, LEVEL = "C28", "fault_enumeration"
RULE = (
    "case = a method and a form of the URL with every API, header, item, authentication and body of the alphabet, or the first behaviour of every sequence of server behaviours of the bound, each request "
    "being performed against a scripted server on the loopback interface which records what it receives. Nontrivial: at least one request was expected to arrive or to be rejected."
)
ASSUMPTIONS = [
    "redirections are not part of the property",
    "the transport of Python, and requests, are part of the implementation explored",
    "an answer which ends within its header, after a complete status line, is a complete answer for http.client",
    "data and JSON are simultaneous when neither is empty",
]
BATCH, CASE_SECONDS = 4, 90
METHODS = ("Delete", "Get", "Head", "Options", "Patch", "Post", "Put")
BASES = ("", "/", "/base", "/base/", "/a/b//")
APIS = ("", "/", "test", "/test", "test/", "/test/add/", "//x//", "a b", "v1.0/x;y", "a//b", "caf\u00e9/\u4e2d", "a%2Fb", "x=1&y", "t//u///v/")
HEADERS = (None, {}, {"X-One": "1"}, {"Accept": "text/csv", "X-Two": "a, b"}, {"Content-Type": "application/x-mine"}, {"Authorization": "Token mine"}, {"authorization": "Token mine", "X-Long": "v" * 5000})
ITEMS = (None, {}, {"a": "1"}, {"a b": "c&d=e", "u": "\u00e9?#/"}, {"n": "5", "m": "", "l": ["1", "2"]}, {f"k{i}": f"v {i}" for i in range(100)})
AUTHS = (None, ("user", "pass:word"), "callable")
BODIES = (
    (None, None), (b"\x00\xff binary", None), (b"", None), ("text", None), ({"f": "1", "g": "a b"}, None), (None, {"x": [1, 2.5, None], "y": {"z": "\u00e9"}}), (None, []), (None, {}),
    (None, [1]), (None, "t"), (None, 7), (b"x" * 70000, None), (None, 0), (None, False),
    ("caf\u00e9 \u20ac", None), ([("a", "1"), ("a", "2"), ("b", "")], None), ({"u": "\u00e9&=", "e": ""}, None), (bytearray(b"\x00bytes"), None), (None, {"a": {"b": [1e300, -0.0, True, "\u20ac\n\"", {}]}}),
    (bytes(range(256)) * 8, None), (bytes(range(255, -1, -1)) * 4096, None), ("text\n" * 50000, None), (None, [{"i": i, "v": "\u00e9" * (i % 7)} for i in range(3000)]), ({f"k{i}": f"v {i}" for i in range(500)}, None),
)


class Bearer(object):
    def __call__(self, r):
        r.headers["Authorization"] = "Bearer token"
        return r


_server = None


def server():
    global _server
    if _server is None or _server[0] != os.getpid():
        _server = (os.getpid(), Server())
    return _server[1]


def spellings(m):
    return (m, m.upper(), m.lower(), m[0].lower() + m[1:].upper(), m.swapcase())


FAULTS = ("truncated", "garbage", "closed", "half", "reset", "silent", "stalled", "broken chunks", "refused")
STATUSES = (200, 201, 202, 204, 206, 304, 299, 399, 400, 401, 403, 404, 408, 409, 418, 429, 451, 499, 500, 501, 502, 503, 504, 511, 599)
STEPS = ("ok", "empty", "json", "cookie", "404", "503", "reset", "truncated", "refused", "silent", "closed", "bad method", "both", "live ok", "live 500", "live refused")


def cases(tier, seed):
    quick = tier == "quick"
    for m in METHODS:
        for base in range(len(BASES)):
            for h in range(len(HEADERS)):
                yield dict(k="parts", method=m, base=base, header=h)
    for m in METHODS:
        yield dict(k="spelling", method=m)
        for s in STATUSES:
            yield dict(k="status", method=m, status=s)
        for f in FAULTS:
            yield dict(k="fault", method=m, fault=f)
    yield dict(k="methods")
    yield dict(k="answers")
    yield dict(k="connect")
    yield dict(k="properties")
    yield dict(k="live")
    for head in itertools.product(range(len(STEPS)), repeat=2):
        yield dict(k="sequence", head=list(head), depth=3 if quick else 4)


def client(base=""):
    c = RestClient()
    c.url = f"http://127.0.0.1:{server().port}{base}"
    c.timeout = (20.0, 20.0)
    return c


OK = ("reply", 200, {"X-Answer": "yes"}, b"answer")


def path_of(base, api):
    base, api = base.strip("/"), api.strip("/")
    return "/" + "/".join(v for v in (base, api) if v)


def check_request(got, method, path, header, item, auth, data, body, what):
    need(len(got) == 1, f"{what}: {len(got)} requests arrived: {[(g[0], g[1]) for g in got]}")
    m, target, headers, content = got[0]
    need(m == method.upper(), f"{what}: method {m!r} arrived")
    p, _, q = target.partition("?")
    need(urllib.parse.unquote(p) == urllib.parse.unquote(path) and ("%2F" not in path or "%2f" in p.lower()), f"{what}: path {p!r} arrived, expected {path!r}")
    want = []
    for k, v in (item or {}).items():
        want += [(k, u) for u in (v if isinstance(v, list) else [v])]
    need(sorted(urllib.parse.parse_qsl(q, keep_blank_values=True)) == sorted(want), f"{what}: items {q!r} arrived, expected {want}")
    names = {}
    for k, v in headers:
        names.setdefault(k.lower(), []).append(v)
    given = {k.lower(): v for k, v in (header or {}).items()}.get("authorization")
    for k, v in (header or {}).items():
        # authorization given as such is applied over the header
        need(names.get(k.lower()) == [v] or k.lower() == "authorization" and auth is not None, f"{what}: header {k} is {names.get(k.lower())}, expected {v!r}")
    a = names.get("authorization")
    if auth is None:
        need(a == (given and [given]), f"{what}: authorization {a} arrived")
    elif isinstance(auth, tuple):
        need(a == ["Basic " + base64.b64encode(":".join(auth).encode()).decode()], f"{what}: authorization {a} arrived")
    else:
        need(a == ["Bearer token"], f"{what}: authorization {a} arrived")
    need("cookie" not in names, f"{what}: a cookie arrived")
    t = (names.get("content-type") or [""])[0]
    if body is not None:
        need(content != b"" and json.loads(content) == body, f"{what}: body {content[:80]!r} arrived, expected JSON {body!r}")
        need("content-type" in {k.lower() for k in header or {}} or t.startswith("application/json"), f"{what}: type of JSON content is {t!r}")
    elif isinstance(data, (dict, list)):
        need(urllib.parse.parse_qsl(content.decode(), keep_blank_values=True) == list(data.items() if isinstance(data, dict) else data), f"{what}: body {content!r} arrived")
    else:
        need(content == (data.encode() if isinstance(data, str) else bytes(data or b"")), f"{what}: body {content[:80]!r} of {len(content)} bytes arrived")


def ask(c, method, api, **kw):
    """request, verifying that its arguments are not modified"""
    keep = copy.deepcopy({k: v for k, v in kw.items() if k != "auth"})
    r = c.request(method, api, **kw)
    need({k: v for k, v in kw.items() if k != "auth"} == keep, f"arguments {keep} are modified to {kw}")
    return r


def check_parts(out, method, base, header):
    s, c = server(), client(BASES[base])
    header = HEADERS[header]
    combos = set()
    small = [(i, a, 0) for i in range(len(ITEMS)) for a in range(len(AUTHS))] + [(2, a, b) for a in range(len(AUTHS)) for b in range(len(BODIES))]
    for api in APIS:
        for i, a, b in small if api in ("test", "", "a//b") else [(0, 0, 0), (3, 1, 5), (4, 2, 1)]:
            item, auth, (data, body) = ITEMS[i], AUTHS[a], BODIES[b]
            auth = Bearer() if auth == "callable" else auth
            kw = {k: v for k, v in dict(auth=auth, header=header, item=item, data=data, json=body).items() if v is not None}
            what = f"{method} {BASES[base]!r} {api!r} {kw}"[:600]
            s.expect(OK)
            r = ask(c, method, api, **kw)
            need(r.status_code == 200 and r.headers.get("X-Answer") == "yes", f"{what}: status {r.status_code}, headers {r.headers}")
            need(r.content == (b"" if method == "Head" else b"answer"), f"{what}: content {r.content!r}")
            check_request(s.requests, method, path_of(BASES[base], api), header, item, auth, data, body, what)
            out.transitions += 1
            combos.add(what)
    out.evaluations = len(combos)


def check_spelling(out, method):
    s, c = server(), client()
    for m in spellings(method):
        for api in ("x", "/x/"):
            s.expect(OK)
            r = ask(c, m, api)
            check_request(s.requests, method, "/x", None, None, None, None, None, f"method {m!r}")
            need(r.status_code == 200, f"method {m!r}: {r}")
            out.transitions += 1


def raises(f, what):
    try:
        v = f()
    except Violation:
        raise
    except Exception:
        return
    raise Violation(f"{what}: returned {v!r}, expected an exception")


def check_status(out, method, status):
    s, c = server(), client()
    for body in (b"", b"content", b'{"a": 1}'):
        for more in ({}, {"Retry-After": "0"}, {"Retry-After": "1", "Content-Type": "application/json"}, {"WWW-Authenticate": 'Basic realm="x"', "Content-Type": "text/html"}, {"Connection": "close", "Warning": "199 - x", "Server": "none"}):
            what = f"{method} answered with {status} {more} {body!r}"
            s.expect(("reply", status, dict({"X-N": "7"}, **more), body))
            if status >= 400:
                raises(lambda: ask(c, method, "x", json={"q": 1}), what)
            else:
                r = ask(c, method, "x", json={"q": 1})
                need(r.status_code == status and r.headers["X-N"] == "7", f"{what}: {r.status_code}")
                need(r.content == (b"" if method == "Head" or status in (204, 304) else body), f"{what}: content {r.content!r}")
            check_request(s.requests, method, "/x", None, None, None, None, {"q": 1}, what)
            out.transitions += 1
    s.expect(OK)
    need(ask(c, method, "x").status_code == 200, f"request after status {status}")


def check_fault(out, method, fault):
    s, c = server(), client()
    quick = fault in ("silent", "stalled")
    for api, body in itertools.product(("x", ""), (None, {"q": 1})):
        what = f"{method}, server: {fault}"
        if fault == "refused":
            s.expect(OK)
            s.down()
            try:
                raises(lambda: ask(c, method, api, json=body), what)
            finally:
                s.restart()
            need(not s.requests, f"{what}: {s.requests}")
        else:
            behaviour = ("chunked", 200, [b"abc", b"de"], False) if fault == "broken chunks" else (fault,)
            s.expect(behaviour, OK)
            if method == "Head" and fault in ("truncated", "broken chunks"):
                need(ask(c, method, api, json=body).status_code == 200, what)       # the header is all of this answer
            else:
                for t in ((8.0, 0.2), 0.2) if quick else ((20.0, 20.0), None):
                    s.expect(behaviour, OK)
                    c.timeout = t
                    t0 = time.time()
                    raises(lambda: ask(c, method, api, json=body), f"{what}, timeout {t}")
                    need(not quick or time.time() - t0 < 5.0, f"{what}, timeout {t}: raised after {time.time() - t0:.1f} s")
                    check_request(s.requests, method, path_of("", api), None, None, None, None, body, what)
                    out.transitions += 1
        c.timeout = (20.0, 20.0)
        s.expect(OK)
        r = ask(c, method, api, json=body)
        need(r.status_code == 200, f"request after {what}: {r}")
        check_request(s.requests, method, path_of("", api), None, None, None, None, body, f"request after {what}")
        out.transitions += 1


def check_connect(out):
    """a server which does not accept: connections wait in a full queue"""
    sock = socket.socket()
    sock.bind(("127.0.0.1", 0))
    sock.listen(0)
    fill = []
    try:
        for _ in range(4):
            f = socket.socket()
            f.settimeout(0.3)
            fill.append(f)
            try:
                f.connect(sock.getsockname())
            except OSError:
                break
        else:
            return          # the queue does not fill here
        for t in ((0.3, 8.0), 0.3):
            c = RestClient()
            c.url, c.timeout = f"http://127.0.0.1:{sock.getsockname()[1]}", t
            t0 = time.time()
            raises(lambda: c.request("get", "x"), f"connection which is not accepted, timeout {t}")
            need(time.time() - t0 < 5.0, f"connection which is not accepted, timeout {t}: raised after {time.time() - t0:.1f} s")
            t0 = time.time()
            need(c.live is False, f"live, connection which is not accepted, timeout {t}")
            need(time.time() - t0 < 5.0, f"live, connection which is not accepted, timeout {t}: {time.time() - t0:.1f} s")
            out.transitions += 2
    finally:
        for f in fill + [sock]:
            f.close()


def check_methods(out):
    s, c = server(), client()
    for m in ("", "Fetch", "GETS", "ge", "get ", " get", "Connect", "Trace", "Get/Post", "delete,get", "p\u00f6st", "ost"):
        s.expect(OK)
        rejects(lambda: c.request(m, "x"), f"method {m!r}")
        rejects(lambda: c.request(m, "x", data=b"x", json={"a": 1}), f"method {m!r}")
        need(not s.requests, f"method {m!r}: {s.requests}")
        out.transitions += 1
    for m in METHODS:
        for data, body in itertools.product((b"x", "x", {"a": "b"}, [("a", "b")]), ({"a": 1}, [1], "t", 1, True)):
            s.expect(OK)
            rejects(lambda: c.request(m, "x", data=data, json=body), f"{m} with data {data!r} and JSON {body!r}")
            need(not s.requests, f"{m} with data and JSON: {s.requests}")
            out.transitions += 1
    s.expect(OK)
    ask(c, "get", "x")
    check_request(s.requests, "get", "/x", None, None, None, None, None, "request after rejections")


def check_answers(out):
    s, c = server(), client()
    value = {"x": [1.5, None, "\u00e9"], "y": {"z": []}}
    text = "\u00e9\u4e2d text"
    for m in METHODS:
        if m == "Head":
            continue
        answers = [
            (("reply", 200, {"Content-Type": "application/json"}, json.dumps(value).encode()), lambda r: r.json() == value, "JSON"),
            (("reply", 200, {"Content-Type": "text/plain; charset=utf-8"}, text.encode()), lambda r: r.text == text, "text"),
            (("reply", 200, {"Content-Type": "application/octet-stream"}, bytes(range(256)) * 600), lambda r: r.content == bytes(range(256)) * 600, "binary"),
            (("reply", 200, {"Content-Encoding": "gzip"}, gzip.compress(b"zip" * 1000)), lambda r: r.content == b"zip" * 1000, "gzip"),
            (("chunked", 200, [b"ab", b"c" * 5000, b"d"], True), lambda r: r.content == b"ab" + b"c" * 5000 + b"d", "chunks"),
            (("chunked", 200, [], True), lambda r: r.content == b"", "no chunks"),
        ]
        for a, f, what in answers:
            s.expect(a)
            r = ask(c, m, "x")
            need(r.status_code == 200 and f(r) and f(r), f"{m}: answer of {what} is {r.content[:80]!r}")
            need(len(s.requests) == 1, f"{m}: {len(s.requests)} requests")
            out.transitions += 1


def check_properties(out):
    """URL, timeout and proxy apply to the instance and to the following requests"""
    s, other = server(), Server()
    base = f"http://127.0.0.1:{s.port}"
    for url in (base, base + "/", base + "//", "/" + base, base + "/p/", base + "/p/q///"):
        c = RestClient()
        c.url = url
        need(c.url == url.strip("/"), f"url {url!r} is {c.url!r}")
        for api in APIS:
            s.expect(OK)
            ask(c, "get", api)
            check_request(s.requests, "get", path_of(url.strip("/")[len(base):], api), None, None, None, None, None, f"url {url!r}, api {api!r}")
            out.transitions += 1
    a, b = RestClient(), RestClient()
    a.url, b.url = base, f"http://127.0.0.1:{other.port}/o"
    a.timeout, b.timeout = 20.0, (20.0, 20.0)
    for word in itertools.product("ab", repeat=3):
        for w in word:
            s.expect(OK), other.expect(OK)
            ask(a if w == "a" else b, "post", "x", data=b"z")
            check_request(s.requests if w == "a" else other.requests, "post", "/x" if w == "a" else "/o/x", None, None, None, b"z", None, f"two clients, {word}")
            need(not (other.requests if w == "a" else s.requests), f"two clients, {word}: the request of {w} arrived at both servers")
            out.transitions += 1
    # a request by way of a proxy carries the complete URL
    p = RestClient()
    p.url, p.timeout = "http://host.invalid:81/base/", 20.0
    p.proxy = dict(http=f"http://127.0.0.1:{other.port}")
    keep = dict(p.proxy)
    for m in METHODS:
        s.expect(OK), other.expect(OK)
        ask(p, m, "/x/", item={"a": "1"})
        need([(r[0], r[1]) for r in other.requests] == [(m.upper(), "http://host.invalid:81/base/x?a=1")], f"by way of a proxy: {[(r[0], r[1]) for r in other.requests]}")
        need(p.proxy == keep, f"proxy is {p.proxy}")
        other.expect(OK)
        need(p.live is True and len(other.requests) == 1, f"live by way of a proxy: {other.requests}")
        out.transitions += 2
    other.down()
    need(p.live is False, "live by way of a proxy which refuses")
    raises(lambda: p.request("get", "x"), "a proxy which refuses")
    # defaults
    d = RestClient()
    need(d.url == "http://127.0.0.1:8080" and not d.proxy and d.timeout == (10.0, 60.0), f"defaults {d.url!r} {d.proxy!r} {d.timeout!r}")
    need(RestClient().proxy is not RestClient().proxy or not RestClient().proxy, "proxies are shared")


def check_live(out):
    s, c = server(), client("/l/")
    for status in STATUSES:
        s.expect(("reply", status, {}, b"content"))
        need(c.live is True, f"live of status {status}")
        need([(r[0], r[1], r[3]) for r in s.requests] == [("HEAD", "/l", b"")], f"live sent {[(r[0], r[1], r[3]) for r in s.requests]}")
        out.transitions += 1
    for fault in ("garbage", "closed", "half", "reset", "silent", "stalled"):
        s.expect((fault,))
        c.timeout = (8.0, 0.2) if fault in ("silent", "stalled") else 20.0
        t0 = time.time()
        v = c.live
        need(fault not in ("silent", "stalled") or time.time() - t0 < 5.0, f"live of {fault}: {time.time() - t0:.1f} s")
        # an incomplete header is complete for http.client only if the connection ends
        need(v is False, f"live of {fault}: {v!r}")
        need(len(s.requests) == 1, f"live of {fault}: {len(s.requests)} requests")
        out.transitions += 1
    c.timeout = 20.0
    for word in itertools.product((True, False), repeat=4):
        up = True
        for w in word:
            if w != up:
                s.restart() if w else s.down()
                up = w
            s.expect(OK)
            need(c.live is w, f"live of a server, which was {word}, in {w}")
            out.transitions += 1
        if not up:
            s.restart()
    for url in (None, "", "nonsense", "http://", "gopher://127.0.0.1", "http://127.0.0.1:99999", "http://[", "http:///x", "://", "http://127.0.0.1:0", 5 if False else "/"):
        d = RestClient()
        d.url = url
        need(d.live is False, f"live of url {url!r} is {d.live!r}")
        out.transitions += 1


def step(s, c, op, i):
    what = f"step {i}: {op}"
    item, header = {"i": str(i)}, {"X-I": str(i)}
    ask_ = lambda m="post", **kw: ask(c, m, f"s{i}", item=item, header=header, **kw)
    if op == "ok":
        s.expect(OK)
        need(ask_(data=b"d%d" % i).content == b"answer", what)
        check_request(s.requests, "post", f"/s{i}", header, item, None, b"d%d" % i, None, what)
    elif op == "empty":
        s.expect(("reply", 204, {}, b""))
        r = ask(c, "delete", f"s{i}")
        need(r.status_code == 204 and r.content == b"", what)
        check_request(s.requests, "delete", f"/s{i}", None, None, None, None, None, what)
    elif op == "json":
        s.expect(("reply", 200, {"Content-Type": "application/json"}, b'{"a": [1]}'))
        need(ask_("put", json=[i], auth=("u", "p")).json() == {"a": [1]}, what)
        check_request(s.requests, "put", f"/s{i}", header, item, ("u", "p"), None, [i], what)
    elif op == "cookie":
        s.expect(("reply", 200, {"Set-Cookie": "session=1; Path=/"}, b"c"))
        need(ask_("get").content == b"c", what)
        check_request(s.requests, "get", f"/s{i}", header, item, None, None, None, what)
    elif op in ("404", "503"):
        s.expect(("reply", int(op), {"Set-Cookie": "session=2; Path=/", "Retry-After": "0"}, b"no"))
        raises(ask_, what)
        check_request(s.requests, "post", f"/s{i}", header, item, None, None, None, what)
    elif op in ("reset", "truncated", "closed"):
        s.expect((op,), OK)
        raises(lambda: ask_("get"), what)
        check_request(s.requests, "get", f"/s{i}", header, item, None, None, None, what)
    elif op == "silent":
        s.expect((op,), OK)
        keep = c.timeout
        c.timeout = (8.0, 0.05)
        t0 = time.time()
        raises(ask_, what)
        need(time.time() - t0 < 5.0, f"{what}: raised after {time.time() - t0:.1f} s")
        c.timeout = keep
        check_request(s.requests, "post", f"/s{i}", header, item, None, None, None, what)
    elif op == "refused":
        s.expect(OK)
        s.down()
        try:
            raises(ask_, what)
        finally:
            s.restart()
    elif op == "bad method":
        s.expect(OK)
        rejects(lambda: ask_("fetch"), what)
        need(not s.requests, what)
    elif op == "both":
        s.expect(OK)
        rejects(lambda: ask_(data=b"1", json=[1]), what)
        need(not s.requests, what)
    elif op == "live ok" or op == "live 500":
        s.expect(("reply", 200 if op == "live ok" else 500, {"Set-Cookie": "session=3"}, b""))
        need(c.live is True, what)
        need([r[0] for r in s.requests] == ["HEAD"] and not [h for h in s.requests[0][2] if h[0].lower() in ("cookie", "x-i", "authorization")], f"{what}: {s.requests}")
    elif op == "live refused":
        s.expect(OK)
        s.down()
        try:
            need(c.live is False, what)
        finally:
            s.restart()


def check_sequence(out, head, depth):
    for tail in itertools.product(range(len(STEPS)), repeat=depth - 2):
        s, c = server(), client()
        word = [STEPS[k] for k in head + list(tail)]
        for i, op in enumerate(word):
            try:
                step(s, c, op, i)
            except Violation as ex:
                raise Violation(f"in {word[:i + 1]}: {ex}")
            out.transitions += 1
        out.evaluations += 1


def probe():
    """the server answers a client of its own"""
    s = server()
    s.expect(OK)
    c = http.client.HTTPConnection("127.0.0.1", s.port, timeout=30)
    try:
        c.request("GET", "/probe")
        if c.getresponse().read() != b"answer":
            raise HarnessError("server does not answer")
    finally:
        c.close()
    s.expect(OK)


def run_case(spec):
    out = Out()
    k = dict(spec)
    probe()
    try:
        globals()["check_" + k.pop("k")](out, **k)
    except (OSError, RuntimeError) as ex:
        if not type(ex).__module__.startswith(("requests", "urllib3", "http")):
            raise
        probe()
        raise Violation(f"raised {type(ex).__name__}: {ex}")
    out.outcome = spec
    return out
