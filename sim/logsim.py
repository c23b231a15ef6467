"""Simulated surroundings of the log: clock, zone, standard streams, text streams and disks."""

import datetime as real_datetime
import errno
import io
import os
import re
import sys
import time as real_time

from sim import runtime, sched
from sim.kit import Violation

UTC = real_datetime.timezone.utc
EPOCH = real_datetime.datetime(1970, 1, 1, tzinfo=UTC)
LEVELS = dict(TRACE=5, DEBUG=10, INFO=20, SUCCESS=25, WARNING=30, ERROR=40, CRITICAL=50)
TS = r"(?P<ts>\d{4}-\d\d-\d\dT\d\d:\d\d(?::\d\d(?:[.,]\d+)?)?(?:Z|[+-]\d\d(?::?\d\d)?(?::?\d\d)?))"
ANSI = r"(?:\x1b\[[0-9;]*m)*"


class Clock:
    """Wall clock of the simulated machine, in whole microseconds."""

    def __init__(self, us=0):
        self.us = us
        self.seen = [us]

    def set(self, us):
        self.us = us
        self.seen.append(us)

    def instant(self):
        return EPOCH + real_datetime.timedelta(microseconds=self.us)


def time_modules(clock):
    """Proxies for the datetime and time modules which read the simulated clock."""

    class datetime(real_datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            if tz is not None:
                t = clock.instant().astimezone(tz)
            else:  # as in the interpreter, which tells the two passages of an hour apart
                t = real_datetime.datetime.fromtimestamp(clock.us // 1_000_000).replace(microsecond=clock.us % 1_000_000)
            return cls(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond, t.tzinfo, fold=t.fold)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            return cls.now(UTC).replace(tzinfo=None)

    def localtime(seconds=None):
        return real_time.localtime(clock.us / 1e6 if seconds is None else seconds)

    def gmtime(seconds=None):
        return real_time.gmtime(clock.us / 1e6 if seconds is None else seconds)

    def strftime(fmt, t=None):
        return real_time.strftime(fmt, localtime() if t is None else t)

    return dict(
        datetime=runtime.ModuleProxy(real_datetime, datetime=datetime),
        time=runtime.ModuleProxy(real_time, time=lambda: clock.us / 1e6, time_ns=lambda: clock.us * 1000, localtime=localtime, gmtime=gmtime, strftime=strftime),
    )


def set_zone(tz):
    os.environ["TZ"] = tz
    real_time.tzset()


class Faults:
    """Decides, by stream and ordinal of the operation, which fault strikes."""

    def __init__(self, specs, ctx):
        self.specs = {(f["stream"], f["on"], f["nth"]): f for f in specs}
        self.ctx = ctx
        self.on_fault = None

    def at(self, stream, on, nth, kinds):
        f = self.specs.get((stream, on, nth))
        if f and f["what"] in kinds:
            self.ctx.fault(f"{on}-{f['what']}")
            if self.on_fault and f["what"] not in ("stall", "short"):
                self.on_fault(stream, f)
            return f
        return None


class Stream:
    """A text stream: `text` has been accepted, `durable` characters of it survive a crash."""

    def __init__(self, name, s=None, tty=False, pieces=1, flushes=True, faults=None):
        self.name, self._sched, self._tty, self._pieces = name, s, tty, pieces
        self.text, self.durable, self.nw, self.nf = "", 0, 0, 0
        self._faults, self.busy, self.marks = faults, 0, []
        if flushes:
            self.flush = self._flush

    def _point(self, why):
        if self._sched is not None and self._sched.inside():
            self._sched.point(why)

    def _fault(self, on, nth):
        return self._faults.at(self.name, on, nth, ("oserror", "valueerror", "interrupt", "stall")) if self._faults else None

    def write(self, text):
        text = str(text)
        self._point("stream")
        f = self._fault("write", self.nw)
        self.nw += 1
        cut = len(text)
        if f:
            cut = min(len(text), int(len(text) * f.get("part", 0.0)))
            if f["what"] == "stall":
                self._sched.sleep(f["seconds"], "stalled stream")
                cut = len(text)
        step = max(1, -(-len(text) // self._pieces))
        for at in range(0, cut, step):
            self.text += text[at : min(cut, at + step)]
            if not hasattr(self, "flush"):
                self.durable = len(self.text)
            if self._pieces > 1:
                self._point("stream-part")
        if f:
            self._raise(f)
        return len(text)

    def _raise(self, f):
        if f["what"] == "oserror":
            raise OSError(f.get("errno", errno.ENOSPC), os.strerror(f.get("errno", errno.ENOSPC)))
        if f["what"] == "valueerror":
            raise ValueError("I/O operation on closed file.")
        if f["what"] == "interrupt":
            raise KeyboardInterrupt()

    def _flush(self):
        self._point("flush")
        f = self._fault("flush", self.nf)
        self.nf += 1
        if f:
            if f["what"] == "stall":
                self._sched.sleep(f["seconds"], "stalled flush")
            else:
                self._raise(f)
        self.durable = len(self.text)

    def isatty(self):
        if self._tty == "error":
            raise OSError(errno.EIO, "isatty")
        return self._tty

    def content(self):
        return self.text

    def safe(self):
        return self.text[: self.durable]


class _Disk(io.RawIOBase):
    """Raw file on a simulated disk; whatever reached it survives a crash of the process."""

    def __init__(self, name, s, faults):
        self.name, self._sched, self._faults, self.data, self.nw = name, s, faults, b"", 0

    def writable(self):
        return True

    def write(self, b):
        if self._sched is not None and self._sched.inside():
            self._sched.point("disk")
        b = bytes(b)
        f = self._faults.at(self.name, "write", self.nw, ("short", "stall", "oserror")) if self._faults else None
        self.nw += 1
        if f:
            if f["what"] == "short":
                n = max(1, int(len(b) * f.get("part", 0.5)))
                self.data += b[:n]
                return n
            if f["what"] == "stall":
                self._sched.sleep(f["seconds"], "stalled disk")
            elif f["what"] == "oserror":
                raise OSError(f.get("errno", errno.ENOSPC), os.strerror(f.get("errno", errno.ENOSPC)))
        self.data += b
        return len(b)


class File(io.TextIOWrapper):
    """The interpreter's own text and buffer layers on a simulated disk."""

    def __init__(self, name, s=None, faults=None, size=64):
        self.disk = _Disk(name, s, faults)
        super().__init__(io.BufferedWriter(self.disk, size), encoding="utf-8", newline="\n")

    def content(self):
        return self.disk.data.decode("utf-8", "replace")

    safe = content


class Machine:
    """A process with standard streams, a clock and a zone, running fresh loguru and diamondback."""

    def __init__(self, s=None, zone="UTC0", us=1_700_000_000_000_000, stdout=None, stderr=None):
        self.sched, self.clock = s, Clock(us)
        self.stdout = stdout or Stream("stdout", s)
        self.stderr = stderr or Stream("stderr", s)
        self.zone = zone

    def __enter__(self):
        self._old = (sys.stdout, sys.stderr, os.environ.get("TZ"))
        self._hidden = (sys.__stdout__, sys.__stderr__)
        sys.stdout, sys.stderr = self.stdout, self.stderr
        set_zone(self.zone)
        try:
            self.process = runtime.Process(("diamondback", "loguru"), dict(threading=sched.threading_proxy(), **time_modules(self.clock)))
            self.process.__enter__()
        except BaseException:
            self._restore()
            raise
        self.Log = self.process.Log
        self.logger = sys.modules["loguru"].logger
        sched.activate(self.sched)
        return self

    def _restore(self):
        sys.stdout, sys.stderr = self._old[:2]
        if self._old[2] is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = self._old[2]
        real_time.tzset()

    def __exit__(self, *a):
        sched.activate(None)
        self.process.__exit__(None, None, None)
        self._restore()
        return False


def line_pattern(level, message):
    """An entry as it must appear: time, level, text, end of line."""
    return re.compile(ANSI + TS + ANSI + r"\s+" + ANSI + re.escape(level.upper()) + ANSI + r"\s+" + ANSI + re.escape(message) + ANSI + r"\r?\n", re.IGNORECASE if False else 0)


def parse_time(ts):
    """Instant and precision, in microseconds, of an ISO 8601 time with offset."""
    m = re.fullmatch(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d)(?::(\d\d)(?:[.,](\d+))?)?(Z|[+-]\d\d(?::?\d\d)?(?::?\d\d)?)", ts)
    if not m:
        raise Violation("time", f"{ts!r} is not ISO 8601 with an offset")
    frac = m[7] or ""
    us = int((frac + "000000")[:6])
    try:
        t = real_datetime.datetime(int(m[1]), int(m[2]), int(m[3]), int(m[4]), int(m[5]), int(m[6] or 0), us, tzinfo=UTC)
    except ValueError:
        raise Violation("time", f"{ts!r} is not a time")
    off = 0
    if m[8] != "Z":
        d = m[8][1:].replace(":", "")
        off = int(d[:2]) * 3600 + int(d[2:4] or 0) * 60 + int(d[4:6] or 0)
        off = -off if m[8][0] == "-" else off
    value = (t - EPOCH) // real_datetime.timedelta(microseconds=1) - off * 1_000_000
    precision = 10 ** (6 - min(6, len(frac))) if m[6] else 60_000_000
    return value, precision


def linearise(ops, level, stream, optional=()):
    """Is there an order of the calls, consistent with real time, that explains where every entry went?

    ops: list of dict(inv, ret, kind in level/stream/write, value, no, seen): `seen` is None or
    (stream, position).  Entries in `optional` may be missing, and are then unconstrained.
    """
    n = len(ops)
    order = {}
    for i, o in enumerate(ops):
        if o["kind"] == "write" and o["seen"] is not None:
            order.setdefault(o["seen"][0], []).append((o["seen"][1], i))
    before = [0] * n  # entries that must already be on the same stream
    for seq in order.values():
        seq.sort()
        mask = 0
        for _, i in seq:
            before[i] = mask
            mask |= 1 << i
    full, seen = (1 << n) - 1, set()
    stack = [(0, level, stream)]
    while stack:
        done, lv, st = stack.pop()
        if done == full:
            return True
        if (done, lv, st) in seen:
            continue
        seen.add((done, lv, st))
        if len(seen) > 200_000:
            return None
        first = min(ops[i]["ret"] for i in range(n) if not done >> i & 1)
        for i in range(n):
            o = ops[i]
            if done >> i & 1 or o["inv"] > first:
                continue
            if o["kind"] == "level":
                stack.append((done | 1 << i, o["value"], st))
            elif o["kind"] == "stream":
                stack.append((done | 1 << i, lv, o["value"]))
            elif o["kind"] == "none":
                stack.append((done | 1 << i, lv, st))
            else:
                want = st if o["no"] >= lv else None
                if o["seen"] is None:
                    if want is not None and i not in optional:
                        continue
                else:
                    if want != o["seen"][0] or (before[i] & ~done):
                        continue
                stack.append((done | 1 << i, lv, st))
    return False
