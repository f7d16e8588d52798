"""A loopback HTTP server whose behaviour is scripted request by request, and which records what it receives."""
import socket
import struct
import threading
import time

STATUS = {200: "OK", 201: "Created", 202: "Accepted", 204: "No Content", 206: "Partial Content", 304: "Not Modified", 400: "Bad Request", 404: "Not Found", 500: "Error"}


class Server(object):
    def __init__(self, port=0):
        self.requests = []          # (method, target, [(name, value)], body)
        self.script = []            # behaviours of the next connections; the last one is repeated
        self.open()
        self.port = self.sock.getsockname()[1] if not port else port

    def open(self, port=0):
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", port))
        self.sock.listen(16)
        self.up = True
        self.thread = threading.Thread(target=self.serve, args=(self.sock,), daemon=True)
        self.thread.start()

    def down(self):
        """refuses connections until `restart`"""
        self.up = False
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()
        self.thread.join()

    def restart(self):
        self.open(self.port)

    def expect(self, *script):
        self.requests, self.script = [], list(script)

    def serve(self, sock):
        while True:
            try:
                c, _ = sock.accept()
            except OSError:
                return
            try:
                c.settimeout(10)
                self.handle(c)
            except (OSError, ValueError):
                pass
            finally:
                try:
                    c.close()
                except OSError:
                    pass

    def handle(self, c):
        buf = b""
        while b"\r\n\r\n" not in buf:
            d = c.recv(65536)
            if not d:
                return
            buf += d
        head, _, body = buf.partition(b"\r\n\r\n")
        rows = head.decode("latin-1").split("\r\n")
        method, target, _ = rows[0].split(" ")
        headers = [(n.strip(), v.strip()) for n, _, v in (r.partition(":") for r in rows[1:])]
        names = {n.lower(): v for n, v in headers}
        if names.get("transfer-encoding", "").lower() == "chunked":
            while not body.endswith(b"0\r\n\r\n"):
                d = c.recv(65536)
                if not d:
                    return
                body += d
            out = b""
            while body:
                n, _, body = body.partition(b"\r\n")
                n = int(n, 16)
                out += body[:n]
                body = body[n + 2:]
                if not n:
                    break
            body = out
        else:
            n = int(names.get("content-length", 0))
            while len(body) < n:
                d = c.recv(65536)
                if not d:
                    return
                body += d
        self.requests.append((method, target, headers, body))
        b = self.script.pop(0) if len(self.script) > 1 else self.script[0]
        self.answer(c, method, b)

    def answer(self, c, method, b):
        kind = b[0]
        if kind == "reply":
            _, status, headers, body = b
            h = dict(headers)
            h.setdefault("Content-Length", str(len(body)))
            if status in (204, 304):
                h.pop("Content-Length")
            t = f"HTTP/1.1 {status} {STATUS.get(status, 'Status')}\r\n" + "".join(f"{k}: {v}\r\n" for k, v in h.items()) + "Connection: close\r\n\r\n"
            c.sendall(t.encode() + (b"" if method == "HEAD" or status in (204, 304) else body))
        elif kind == "chunked":
            _, status, pieces, end = b
            t = f"HTTP/1.1 {status} {STATUS.get(status, 'Status')}\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n".encode()
            if method != "HEAD":
                for p in pieces:
                    t += b"%x\r\n" % len(p) + p + b"\r\n"
                if end:
                    t += b"0\r\n\r\n"
            c.sendall(t)
        elif kind == "truncated":
            c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: 100\r\nConnection: close\r\n\r\n" + (b"" if method == "HEAD" else b"short"))
        elif kind == "garbage":
            c.sendall(b"\x00\x01 not an answer \r\n\r\n")
        elif kind == "closed":
            pass
        elif kind == "half":
            c.sendall(b"HTTP/1.")
        elif kind == "reset":
            c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        elif kind == "silent":
            # until the client leaves
            end = time.time() + 8
            c.settimeout(8)
            while time.time() < end and c.recv(1024):
                pass
        elif kind == "stalled":
            # an answer which never continues
            c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\nshort" if method != "HEAD" else b"HTTP/1.1 200 OK\r\nContent-")
            c.settimeout(8)
            while c.recv(1024):
                pass
        else:
            raise KeyError(kind)
