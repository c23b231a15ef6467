"""C04: each entry has the time of the call, the level and exactly the text or exception given."""

import random
import re
import traceback

from sim import sched
from sim.kit import check
from sim.logsim import ANSI, LEVELS, TS, Machine, Stream, line_pattern, parse_time
from sim.runtime import REPO

ID = "C04"
RUNS = dict(quick=10000, thorough=400000)
SHRINK_LISTS = ("ops", "threads", "switches")
RULE = ("A run draws a zone (summer time rules, odd offsets), a start time, a stream (plain or terminal) and 1 to 3 threads with 1 to 8 operations: entries of arbitrary text (rarely some 100 000 characters) or exceptions raised through up to 12 frames (rarely 110) of "
        "synthetic files with and without suffix and logged in, after, or inside another handler, and clock jumps in either direction or zone changes between and inside calls; non-trivial if the clock jumped, the zone changed or an exception was logged; "
        "distinct by digest of the event log.")
STATE = "distinct (zone, kind of entry, way of raising, depth, jump inside the call, terminal)"
REAL = ["diamondback.commons.log", "loguru (complete)", "zone rules of the C library"]
STUB = ["wall clock", "threading locks (simulated)", "text stream", "files of the raising frames (compiled from memory)"]
ASSUMPTIONS = ["offsets are whole minutes and years lie in 1970 to 2200"]
PROBES = ("clock-forward", "clock-back", "zone-change", "jump-inside-call", "exception", "fold", "year-boundary")

ZONES = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45", "NST3:30NDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "LINT-14", "AOE12", "NZST-12NZDT,M9.5.0,M4.1.0/3", "MART9:30"]
PIECES = ["{", "}", "{}", "{time}", "{0}", "{message}", "<red>", "</red>", "<level>", "\\<b>", "%s", "%", "\n", "\r\n", "\t", "  ", "é", "日本", "\U0001f600", "\x1b[31m", "\x00", "\\n", "'", '"', "| INFO |", "2001-01-01T00:00:00.00+00:00 ERROR x",
          "a", "word", "0.1", "@ File =", "Line = 3", "None", "\\", "$", "[1 2 3]", "\u2028", "\u202e", "e\u0301", "\ufb01", "\u212b", "\u00a0", "\x7f", "\x0b", "\ufeff"]
HOW = ["in-handler", "in-handler", "in-handler", "later", "nested", "reraised", "wrapped", "never-raised", "twice", "recursive", "generator", "inner-handled"]


ENDINGS = [".py", "", ".pyw", ".a.py", ".c.d", "_z.py", ".PY", ".pyc"]


def generate(r, tier):
    tz = r.choice(ZONES)
    if r.random() < 0.4:
        # Around a change of summer time or a year boundary.
        year = r.randrange(1971, 2100)
        import datetime as d

        base = r.choice([d.datetime(year, 12, 31, 23, 59, 59), d.datetime(year, 11, 1, 6), d.datetime(year, 10, 25, 1), d.datetime(year, 4, 1, 14), d.datetime(year, 3, 28, 1), d.datetime(year, 2, 28, 23, 59)])
        us = int((base - d.datetime(1970, 1, 1)).total_seconds()) * 1_000_000 + r.randrange(0, 8) * 86_400_000_000 + r.randrange(-3_600_000_000, 3_600_000_000)
    else:
        us = r.randrange(86_400_000_000, 7_200_000_000_000_000)
    us = max(us, 86_400_000_000 * 30)
    if r.random() < 0.3:
        us = us // 1_000_000 * 1_000_000 + r.choice([0, 1, 9_999, 10_000, 994_999, 995_000, 999_999])
    threads, n = [], 0
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        ops = []
        for _ in range(r.randrange(1, 9)):
            k = r.random()
            if k < 0.3:
                ops.append(["clock", r.choice([1, -1]) * r.choice([1, 10_000, 500_000, 1_000_000, 3_600_000_000, 86_400_000_000, 31_536_000_000_000, r.randrange(1 << 44)])])
            elif k < 0.34:
                ops.append(["zone", r.choice(ZONES)])
            elif k < 0.7:
                text = "".join(r.choice(PIECES) for _ in range(r.choice([0, 1, 2, 3, 5, 12])))
                if r.random() < 0.01:
                    text += "".join(r.choice(PIECES) for _ in range(50)) * r.choice([20, 60, 200, 700])
                ops.append(["text", r.choice(["Info", "ERROR", "critical", "Warning", "sUCCESS"]), text, n])
                n += 1
            else:
                ops.append(["exception", r.choice(["Error", "critical", "Info"]), r.choice(HOW), r.randrange(1, 13) if r.random() < 0.97 else r.choice([20, 35, 60, 110]), r.choice(["", "boom", "two\nlines", "{x} <b>", "a @ File = z Line = 1", "é"] if r.random() < 0.98 else ["long " * 2000]), r.randrange(1 << 30), n])
                n += 1
        threads.append(dict(ops=ops))
    return dict(threads=threads, zone=tz, us=us, tty=r.random() < 0.2, sched=dict(seed=r.randrange(1 << 40), gap=r.choice([5, 15, 40, 200])))


class SimError(Exception):
    pass


class Odd(ValueError):
    def __str__(self):
        return "<" + "/".join(map(str, self.args)) + ">"


KINDS = [ValueError, SimError, Odd, RuntimeError, ArithmeticError, UserWarning]


def frames(n, depth, seed, how, tail):
    """Functions in synthetic files, each calling the next at a line of its own; returns the outermost."""
    r = random.Random(seed)
    files = [f"{r.choice(['/opt/app', 'C:/x y', 'lib', '/a.b/c'])}/zq{n}m{k if not (how == 'recursive') else k % 2}{r.choice(ENDINGS) if seed % 3 == 0 else '.py'}" for k in range(depth)]
    fn = tail
    for k in reversed(range(depth)):
        pad = "\n" * r.randrange(0, 400)
        if how == "generator" and k % 3 == 1:
            src = f"def f():\n{pad}    def g():\n        yield 1\n        fn()\n    for _ in g():\n        pass\n"
        elif how == "inner-handled" and k % 2:
            src = f"def f():\n    try:\n        raise KeyError(1)\n    except KeyError:\n        pass\n{pad}    fn()\n"
        elif how == "reraised" and k % 3 == 0:
            src = f"def f():\n{pad}    try:\n        fn()\n    except Exception:\n        raise\n"
        elif how == "reraised" and k % 3 == 1:
            src = f"def f():\n{pad}    try:\n        fn()\n    except Exception as ex:\n        raise ex\n"
        else:
            src = f"def f():\n{pad}    return fn()\n"
        env = dict(fn=fn)
        exec(compile(src, files[k], "exec"), env)
        fn = env["f"]
    return fn


SEEN = r"(?!\w)(?!\.\w)"


def listed(text, frames):
    """Where the last of the frames ends that the text shows in this order, each with its line, or nothing."""
    pos = 0
    for f, n in frames:
        h = re.compile(r"(?<!\w)" + re.escape(f) + SEEN + r"\D{0,40}?(?<!\d)" + str(n) + r"(?!\d)").search(text, pos)
        if not h:
            return None
        pos = h.end()
    return pos


def execute(plan, ctx):
    trace = sched.tracer((REPO + "/diamondback/commons/",), ("loguru/_logger.py", "loguru/_handler.py"))
    s = sched.Scheduler(plan["sched"], ctx, trace)
    with Machine(s, zone=plan["zone"], us=plan["us"]) as m:
        from sim.logsim import set_zone

        st = Stream("s", s, tty=plan["tty"], pieces=2)
        m.Log.stream(st)
        done, zone = [], [plan["zone"]]

        def log(op, entry, expect):
            rec = dict(op=op, expect=expect, first=len(m.clock.seen) - 1)
            m.Log.write(op[1], entry)
            rec["last"] = len(m.clock.seen)
            done.append(rec)

        def describe(ex):
            """What the entry must show, from the interpreter's own account of the exception."""
            tb = [(f.filename.replace("\\", "/").split("/")[-1], f.lineno) for f in traceback.extract_tb(ex.__traceback__)]
            return dict(type=type(ex).__name__, message=str(ex), frames=tb)

        def exception(op):
            _, level, how, depth, message, seed, n = op
            kind = KINDS[seed % len(KINDS)]
            made = kind(f"[{n}]{message}")
            if how == "never-raised":
                return log(op, made, describe(made))

            def tail():
                if how == "wrapped":
                    try:
                        {}["missing"]
                    except KeyError as ex:
                        raise made from ex
                raise made

            fn = frames(n, depth, seed, how, tail)
            if how == "later":
                try:
                    fn()
                except Exception as ex:
                    saved = ex
                return log(op, saved, describe(saved))
            if how == "nested":
                try:
                    fn()
                except Exception as ex:
                    try:
                        int("x")
                    except ValueError:
                        return log(op, ex, describe(ex))
            if how == "twice":
                def middle():
                    try:
                        fn()
                    except Exception as ex:
                        log(op[:6] + [-1 - n], ex, describe(ex))
                        raise
                try:
                    middle()
                except Exception as ex:
                    return log(op, ex, describe(ex))
            try:
                fn()
            except Exception as ex:
                return log(op, ex, describe(ex))

        def body(ops):
            for op in ops:
                if op[0] == "clock":
                    us = min(max(m.clock.us + op[1], 86_400_000_000 * 2), 7_250_000_000_000_000)
                    ctx.fault("clock-back" if us < m.clock.us else "clock-forward")
                    m.clock.set(us)
                elif op[0] == "zone":
                    ctx.fault("zone-change")
                    zone[0] = op[1]
                    set_zone(op[1])
                elif op[0] == "text":
                    text = f"[{op[3]}]{op[2]}" if op[3] % 2 else f"{op[2]}[{op[3]}]"
                    log(op, text, text)
                else:
                    exception(op)
                    ctx.stat("exception")
                    ctx.nontrivial = True

        for t, spec in enumerate(plan["threads"]):
            s.spawn(f"t{t}", lambda ops=spec["ops"]: body(ops))
        s.run()
        for t in s.tasks:
            if t.error:
                raise t.error
        check(not s.overrun and s.deadlock is None, "no-progress", "the calls do not end")
        text, spans = st.content(), []
        ctx.event(text)
        for rec in done:
            op, e = rec["op"], rec["expect"]
            if isinstance(e, str):
                pat = line_pattern(op[1], e)
            else:
                # Type, message, then file and line of every frame in order; the layout is free.
                pat = re.compile(ANSI + TS + ANSI + r"\s+" + ANSI + op[1].upper() + ANSI + r"\s+" + ANSI + r"(?:[^\n]*?\W)?" + re.escape(e["type"]) + r"\W(?:.*?\W)?" + re.escape(e["message"]) + r"(?P<frames>[^\n]*)\n")
            hits = [h for h in pat.finditer(text) if not any(a < h.end() and h.start() < b for a, b, _ in spans)]
            if not isinstance(e, str):
                hits = [h for h in hits if listed(h["frames"], e["frames"]) is not None]
            check(hits, "entry", f"{op} is not in the log as given: {e!r}; the log is {text!r}")
            h = hits[0]
            if not isinstance(e, str):
                names = set(f for f, _ in e["frames"])
                shown = sum(len(re.findall(r"(?<!\w)" + re.escape(f) + SEEN, h["frames"])) for f in names)
                expected = len(e["frames"])
                rest = h["frames"][listed(h["frames"], e["frames"]) :]
                check(shown == expected and not re.search(r"\w+\.py\b|\bzq\d+m\d", rest), "frames", f"{op}: {expected} frames {e['frames']} are shown as {h.group(0)!r}")
            spans.append((h.start(), h.end(), op))
            value, precision = parse_time(h["ts"])
            check(precision <= 1_000_000, "time", f"{h['ts']} is given to {precision} us")
            seen = m.clock.seen[rec["first"] : rec["last"]]
            check(any(-precision < value - v < precision for v in seen), "time", f"{h['ts']} is not a time of the clock during the call, which was {seen} us since 1970 in zone {zone[0]}")
            if len(seen) > 1:
                ctx.stat("jump-inside-call")
            local = h["ts"]
            if local[5:10] in ("12-31", "01-01"):
                ctx.stat("year-boundary")
            import datetime as d

            w = d.datetime.fromtimestamp(value / 1e6)
            if w.fold:
                ctx.stat("fold")
            ctx.state(zone[0], op[0], op[2] if op[0] == "exception" else len(op[2]) > 0, len(seen) > 1, plan["tty"], op[3] if op[0] == "exception" else 0)
        spans.sort()
        pos = 0
        for a, b, op in spans + [(len(text), len(text), None)]:
            check(a == pos, "residue", f"{text[pos:a]!r} belongs to no entry")
            pos = b
