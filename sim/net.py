"""Simulated network: names, addresses, connections and HTTP servers in virtual time.

The client side is the real stack: diamondback.commons.rest_client, requests, urllib3 and
http.client.  Below it stand simulated sockets.  Servers are scripts: for every request that
arrived completely they give a list of timed events - data, end, reset - on that connection.
"""

import errno
import io
import os
import socket as real_socket
import sys
import time as real_time
import weakref

from sim import runtime, sched

_real = {}


def _remember():
    if _real:
        return
    import urllib3.connection
    import urllib3.util.connection

    _real.update(
        socket=real_socket.socket, getaddrinfo=real_socket.getaddrinfo, create_connection=real_socket.create_connection,
        sleep=real_time.sleep, monotonic=real_time.monotonic, time=real_time.time, perf_counter=real_time.perf_counter,
    )


class Request:
    """A request as it arrived at a server."""

    def __init__(self, conn):
        self.conn, self.raw = conn, b""
        self.method = self.target = self.version = None
        self.headers, self.body, self.complete, self.at = [], b"", False, None

    def get(self, name):
        v = [b for a, b in self.headers if a.lower() == name.lower()]
        return ", ".join(v) if v else None


class Conn:
    """One accepted connection."""

    def __init__(self, net, addr, index, spec):
        self.net, self.addr, self.index, self.spec = net, addr, index, spec
        self.buffer, self.requests, self.sent = b"", [], 0
        self.queue = []  # (arrival, kind, payload) towards the client
        self.busy_until = net.now()
        self.client_closed = False
        self.opened = net.now()

    def deliver(self, events):
        t = max(self.busy_until, self.net.now())
        for delay, kind, payload in events:
            t += delay
            self.queue.append([t, kind, payload])
        self.busy_until = t
        self.net.wake()

    def received(self, data):
        self.buffer += data
        self.sent += len(data)
        while self.buffer:
            used = self._parse()
            if not used:
                return

    def _parse(self):
        b = self.buffer
        end = b.find(b"\r\n\r\n")
        if end < 0:
            return 0
        q = Request(self)
        lines = b[:end].split(b"\r\n")
        first = lines[0].decode("latin-1").split(" ")
        if len(first) != 3:
            q.method, q.target, q.version = "?", lines[0].decode("latin-1"), "?"
        else:
            q.method, q.target, q.version = first
        for line in lines[1:]:
            k, _, v = line.decode("latin-1").partition(":")
            q.headers.append((k, v.strip(" \t")))
        at = end + 4
        if (q.get("transfer-encoding") or "").lower() == "chunked":
            body = b""
            while True:
                e = b.find(b"\r\n", at)
                if e < 0:
                    return 0
                n = int(b[at:e].split(b";")[0], 16)
                if len(b) < e + 2 + n + 2:
                    return 0
                body += b[e + 2 : e + 2 + n]
                at = e + 2 + n + 2
                if not n:
                    break
            q.body = body
        else:
            n = int(q.get("content-length") or 0)
            if len(b) < at + n:
                return 0
            q.body = b[at : at + n]
            at += n
        q.raw, q.complete, q.at = b[:at], True, self.net.now()
        self.buffer = b[at:]
        self.requests.append(q)
        self.net.requests.append(q)
        self.net.ctx.event("request", self.index, q.raw)
        self.deliver(self.net.respond(self, q))
        return at


class SimSocket:
    """A stream socket.  Its waiting is decided by the scheduler, its data by the servers."""

    family, type, proto = real_socket.AF_INET, real_socket.SOCK_STREAM, 6

    def __init__(self, net, family=real_socket.AF_INET, type=real_socket.SOCK_STREAM, proto=0, fileno=None):
        self.net, self.family, self.type, self.proto = net, family, type, proto
        self._timeout, self._io_refs, self._closed, self.conn = None, 0, False, None
        self._real_closed, self._shut = False, False
        self.index = len(net.sockets)
        self.owner = net.owner()
        self.record = dict(index=self.index, owner=self.owner, open=True, addr=None)
        net.sockets.append((weakref.ref(self), self.record))

    # -- plain ------------------------------------------------------------------
    def settimeout(self, v):
        if v is not None and v < 0:
            raise ValueError("Timeout value out of range")
        self._timeout = v

    def gettimeout(self):
        return self._timeout

    timeout = property(lambda self: self._timeout)

    def setblocking(self, flag):
        self._timeout = None if flag else 0.0

    def setsockopt(self, *a):
        self._check()

    def getsockopt(self, *a):
        return 0

    def fileno(self):
        return -1 if self._closed else 10_000 + self.index

    def getpeername(self):
        if not self.conn:
            raise OSError(errno.ENOTCONN, "not connected")
        return self.conn.addr

    def getsockname(self):
        return ("10.0.0.1", 40_000 + self.index)

    def bind(self, a):
        pass

    def detach(self):
        return self.fileno()

    def _check(self):
        if self._closed and self._io_refs <= 0:
            raise OSError(errno.EBADF, "Bad file descriptor")

    def _decref_socketios(self):
        if self._io_refs > 0:
            self._io_refs -= 1
        if self._closed:
            self.close()

    def close(self):
        self._closed = True
        if self._io_refs <= 0 and not self._real_closed:
            self._real_closed = True
            self.record["open"] = False
            if self.conn:
                self.conn.client_closed = True
            self.net.ctx.event("close", self.index)

    def shutdown(self, how):
        self._check()
        if not self.conn:
            raise OSError(errno.ENOTCONN, "not connected")
        self._shut = True

    def makefile(self, mode="r", buffering=None, *, encoding=None, errors=None, newline=None):
        raw = real_socket.SocketIO(self, "rw" if "w" in mode and "r" in mode else ("w" if "w" in mode else "r"))
        self._io_refs += 1
        if buffering == 0:
            return raw
        if "w" in mode and "r" in mode:
            buf = io.BufferedRWPair(raw, raw)
        elif "w" in mode:
            buf = io.BufferedWriter(raw)
        else:
            buf = io.BufferedReader(raw, io.DEFAULT_BUFFER_SIZE if not buffering or buffering < 0 else buffering)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline)

    def __del__(self):
        self.record["open"] = False  # the operating system gets it back, as with a real socket

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # -- network ----------------------------------------------------------------
    def _wait(self, until, why):
        """Waits until an arrival, or the limit of this socket; False on time out."""
        net, start = self.net, self.net.now()
        limit = None if self._timeout is None else start + self._timeout
        return limit

    def connect(self, addr):
        self._check()
        net = self.net
        net.step("connect")
        self.record["addr"] = addr
        net.connects.append((net.now(), addr, self.owner))
        spec = net.accept(addr, self)
        start, limit = net.now(), self._timeout
        delay, kind = spec.get("delay", 0.0), spec["kind"]
        net.ctx.event("connect", addr, kind, delay)
        if kind != "accept" and kind != "refuse" and kind != "unreachable":
            delay = None  # never answered
        if delay is None or (limit is not None and delay >= limit):
            net.ctx.fault("unanswered")
            if limit is None:
                net.forever("connect")
            net.sleep(limit)
            net.waits.append(("connect", self.owner, net.now() - start))
            raise TimeoutError("timed out")
        if delay:
            net.sleep(delay)
        net.waits.append(("connect", self.owner, net.now() - start))
        if kind == "refuse":
            net.ctx.fault("refused")
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        if kind == "unreachable":
            net.ctx.fault("unreachable")
            raise OSError(errno.EHOSTUNREACH, "No route to host")
        self.conn = Conn(net, addr, len(net.conns), spec)
        self.conn.owner = self.owner
        net.conns.append(self.conn)

    def connect_ex(self, addr):
        try:
            self.connect(addr)
            return 0
        except OSError as ex:
            return ex.errno or errno.EAGAIN

    def sendall(self, data, flags=0):
        self.send(data, flags, True)

    def send(self, data, flags=0, everything=False):
        self._check()
        net, c = self.net, self.conn
        if c is None:
            raise BrokenPipeError(errno.EPIPE, "not connected")
        net.step("send")
        data = bytes(data)
        f = c.spec.get("send")
        if f and not f.get("done") and c.sent + len(data) > f["at"]:
            f["done"] = True
            net.ctx.fault("send-" + f["what"])
            keep = max(0, f["at"] - c.sent)
            c.received(data[:keep])
            data = data[keep:]
            if f["what"] == "stall":
                start = net.now()
                if self._timeout is not None and f["seconds"] >= self._timeout:
                    net.sleep(self._timeout)
                    net.waits.append(("send", self.owner, net.now() - start))
                    raise TimeoutError("timed out")
                net.sleep(f["seconds"])
            elif f["what"] == "reset":
                c.queue[:] = [[net.now(), "rst", b""]]
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            else:
                c.deliver(f.get("events", [[0.0, "rst", b""]]))
                raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        c.received(data)
        return len(data)

    def recv(self, n, flags=0):
        b = bytearray(n)
        k = self.recv_into(b, n, flags)
        return bytes(b[:k])

    def recv_into(self, buffer, nbytes=0, flags=0):
        self._check()
        net, c = self.net, self.conn
        if c is None:
            raise OSError(errno.ENOTCONN, "not connected")
        net.step("recv")
        n = nbytes or len(buffer)
        if self._shut or not n:
            return 0
        start = net.now()
        limit = None if self._timeout is None else start + self._timeout
        while True:
            if c.queue and c.queue[0][0] <= net.now():
                at, kind, payload = c.queue[0]
                if kind == "rst":
                    net.ctx.fault("reset")
                    raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
                if kind == "fin":
                    return 0
                take = payload[:n]
                if len(take) < len(payload):
                    c.queue[0][2] = payload[n:]
                else:
                    c.queue.pop(0)
                memoryview(buffer)[: len(take)] = take
                net.waits.append(("recv", self.owner, net.now() - start))
                return len(take)
            nxt = c.queue[0][0] if c.queue else None
            if limit is not None and (nxt is None or nxt >= limit):
                net.sleep(limit - net.now())
                net.ctx.fault("read-timeout")
                net.waits.append(("recv", self.owner, net.now() - start))
                raise TimeoutError("timed out")
            if nxt is None:
                net.forever("recv")
            net.sleep(nxt - net.now())

    def readable(self):
        c = self.conn
        return bool(c and c.queue and c.queue[0][0] <= self.net.now())


class Net:
    """hosts: name -> list of addresses, or an exception class name; accept and respond are scripts.

    accept(addr, sock) -> {"kind": accept/refuse/unreachable/silent, "delay": s, "send": {...}}
    respond(conn, request) -> [[delay, "data"/"fin"/"rst", payload], ...]
    """

    def __init__(self, s, ctx, hosts, accept, respond):
        _remember()
        self.s, self.ctx, self.hosts, self.accept, self.respond = s, ctx, hosts, accept, respond
        self.sockets, self.conns, self.requests, self.connects, self.waits, self.lookups = [], [], [], [], [], []
        self.offset, self.interrupts, self.ops = 0.0, {}, {}
        self.epoch = 1_700_000_000.0

    # -- time and scheduling ------------------------------------------------------
    def now(self):
        return self.s.now + self.offset

    def owner(self):
        t = self.s.me()
        return t.index if t is not None else -1

    def sleep(self, seconds):
        if self.s.inside():
            self.s.sleep(seconds, "network")
        else:
            self.offset += max(0.0, seconds)

    def forever(self, why):
        if self.s.inside():
            self.s.block(f"{why} without limit")
        raise sched.Deadlock(f"{why} waits for ever")

    def wake(self):
        pass

    def step(self, what):
        o = self.owner()
        n = self.ops[o] = self.ops.get(o, 0) + 1
        if self.interrupts.get(o) == n:
            self.ctx.fault(f"interrupt-{what}")
            raise KeyboardInterrupt()
        if self.s.inside():
            self.s.point(what)

    # -- patches --------------------------------------------------------------------
    def getaddrinfo(self, host, port, family=0, type=0, proto=0, flags=0):
        name = host.decode() if isinstance(host, bytes) else host
        self.step("resolve")
        self.lookups.append((name, port, self.owner()))
        found = self.hosts.get(name.lower() if name else name)
        if found is None:
            import ipaddress

            try:
                ipaddress.ip_address(name)
                found = [name]
            except ValueError:
                found = "unknown"
        self.ctx.event("resolve", name, found)
        if isinstance(found, str):
            self.ctx.fault("resolve-" + found)
            code = dict(unknown=real_socket.EAI_NONAME, again=real_socket.EAI_AGAIN, fail=real_socket.EAI_FAIL)[found]
            raise real_socket.gaierror(code, found)
        return [(real_socket.AF_INET6 if ":" in a else real_socket.AF_INET, real_socket.SOCK_STREAM, 6, "", (a, int(port), 0, 0) if ":" in a else (a, int(port))) for a in found]

    def __enter__(self):
        import urllib3.connection
        import urllib3.util.connection
        import urllib3.util.wait

        net = self

        def make(family=real_socket.AF_INET, type=real_socket.SOCK_STREAM, proto=0, fileno=None):
            return SimSocket(net, family, type, proto, fileno)

        def wait_for_read(sock, timeout=None):
            if isinstance(sock, SimSocket):
                return sock.readable()
            return False

        self._saved = dict(wait=urllib3.util.wait.wait_for_read, conn=urllib3.connection.wait_for_read)
        real_socket.socket, real_socket.getaddrinfo = make, self.getaddrinfo
        urllib3.util.wait.wait_for_read = urllib3.connection.wait_for_read = wait_for_read
        real_time.sleep, real_time.monotonic = self.sleep, self.now
        real_time.time, real_time.perf_counter = lambda: self.epoch + self.now(), self.now
        self._env = {k: v for k, v in os.environ.items() if k.lower().endswith("_proxy")}
        import urllib3.util.connection as uc

        self._six, uc.HAS_IPV6 = uc.HAS_IPV6, True
        for k in self._env:
            del os.environ[k]
        self.process = runtime.Process(("diamondback",), dict(threading=sched.threading_proxy()))
        sched.activate(self.s)
        return self

    def __exit__(self, *a):
        import urllib3.connection
        import urllib3.util.wait
        import urllib3.util.connection as uc

        sched.activate(None)
        uc.HAS_IPV6 = self._six
        real_socket.socket, real_socket.getaddrinfo = _real["socket"], _real["getaddrinfo"]
        real_time.sleep, real_time.monotonic = _real["sleep"], _real["monotonic"]
        real_time.time, real_time.perf_counter = _real["time"], _real["perf_counter"]
        urllib3.util.wait.wait_for_read, urllib3.connection.wait_for_read = self._saved["wait"], self._saved["conn"]
        os.environ.update(self._env)
        # Pools are finalised through a global registry; they must not keep this run alive.
        for ref, _ in self.sockets:
            x = ref()
            if x is not None:
                x.net = x.conn = None
                x._real_closed = x._closed = True
        return False

    def trace(self):
        return sched.tracer((runtime.REPO + "/diamondback/commons/",), ())

    def open_sockets(self, owner=None):
        """Sockets neither closed nor given up."""
        return [(x["index"], x["addr"]) for _, x in self.sockets if x["open"] and (owner is None or x["owner"] == owner)]


def payload(status=200, reason="OK", headers=(), body=b"", framing="length", chunks=(), head=False, version="1.1"):
    """The bytes of a response."""
    out = f"HTTP/{version} {status} {reason}\r\n".encode("latin-1")
    hs = list(headers)
    if framing == "length":
        hs.append(("Content-Length", str(len(body))))
    elif framing == "chunked":
        hs.append(("Transfer-Encoding", "chunked"))
    elif framing == "close":
        hs.append(("Connection", "close"))
    for k, v in hs:
        out += f"{k}: {v}\r\n".encode("latin-1")
    out += b"\r\n"
    if head or framing == "none":
        return out
    if framing == "chunked":
        at, sizes = 0, list(chunks) or [max(1, len(body))]
        k = 0
        while at < len(body):
            n = max(1, sizes[k % len(sizes)])
            part = body[at : at + n]
            out += f"{len(part):{'x' if k % 2 else 'X'}}".encode() + (b";ext=1" if k % 3 == 2 else b"") + b"\r\n" + part + b"\r\n"
            at += n
            k += 1
        out += b"0\r\n\r\n"
        return out
    return out + body


def segments(data, cuts, delay=0.0, end=None):
    """Divides data at the given positions into timed arrivals."""
    out, at = [], 0
    for c in sorted(set(min(max(1, c), len(data)) for c in cuts) | {len(data)}):
        if c > at:
            out.append([delay, "data", data[at:c]])
            at = c
    if end:
        out.append([0.0, end, b""])
    return out
