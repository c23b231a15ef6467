"""C03: failing outputs neither break callers nor lose other entries; returned entries are durable."""

import errno

from sim import sched
from sim.kit import Violation, check
from sim.logsim import LEVELS, TS, Faults, File, Machine, Stream, line_pattern, linearise
from sim.runtime import REPO

ID = "C03"
RUNS = dict(quick=10000, thorough=400000)
SHRINK_LISTS = ("ops", "threads", "switches", "faults", "streams", "ext")
RULE = ("A run draws 1 to 3 threads with 2 to 8 calls each (write, redirect), up to 3 streams (plain, terminal, unflushable, or the interpreter's own text and buffer layers on a simulated disk), up to 6 faults "
        "placed by stream and ordinal of its write or flush, other registered outputs, a schedule, and in one run of four a crash at a random step; non-trivial if a fault or the crash struck; distinct by digest of the event log.")
STATE = "distinct event logs (context switches, calls, returns, faults, final and durable texts)"
REAL = ["diamondback.commons.log", "loguru (complete)", "io.TextIOWrapper and io.BufferedWriter of the interpreter"]
STUB = ["threading locks (simulated)", "text streams and raw disk files", "wall clock", "standard output and error"]
ASSUMPTIONS = ["a crash loses exactly what the stream had not been told to flush", "an interrupted entry may be missing from other outputs as well", "standard error, which loguru falls back to, fails only with OSError (a closed standard error is outside the statement)"]
PROBES = ("write-oserror", "flush-oserror", "write-interrupt", "write-stall", "write-short", "crash", "redirect-after-fault", "write-valueerror")


def generate(r, tier):
    threads, m = [], 0
    ns = r.choice([1, 2, 2, 3])
    streams = []
    for k in range(ns):
        if r.random() < 0.35:
            streams.append(dict(file=True, size=r.choice([16, 64, 256, 8192])))
        else:
            streams.append(dict(tty=r.choice([False, False, False, True, "error"]), pieces=r.choice([1, 2, 5]), flushes=r.random() < 0.85))
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        ops = []
        for _ in range(r.randrange(2, 9)):
            if r.random() < 0.25:
                ops.append(["stream", r.randrange(ns)])
            else:
                ops.append(["write", r.choice(["Info", "Error", "Critical", "Debug", "Warning"]), m, r.choice([0, 0, 3, 40, 200])])
                m += 1
        threads.append(dict(ops=ops))
    total = sum(len(t["ops"]) for t in threads)
    while total > 16:
        t = max(threads, key=lambda t: len(t["ops"]))
        t["ops"].pop()
        total -= 1
    faults, kinds = [], r.sample(["oserror", "oserror", "torn", "interrupt", "stall", "flush", "valueerror", "short"], r.randrange(1, 5))
    for _ in range(r.randrange(0, 7)):
        what = r.choice(kinds)
        name = r.choice([f"s{r.randrange(ns)}"] * 5 + ["stdout", "stderr"])
        nth = r.choice([0, 0, 1, 1, 2, 3, 4, 6])
        code = r.choice([errno.ENOSPC, errno.EIO, errno.EPIPE, errno.EAGAIN])
        if what == "oserror":
            faults.append(dict(stream=name, on="write", nth=nth, what="oserror", part=0.0, errno=code))
        elif what == "torn":
            faults.append(dict(stream=name, on="write", nth=nth, what="oserror", part=round(r.random(), 2), errno=code))
        elif what == "interrupt":
            faults.append(dict(stream=name, on=r.choice(["write", "flush"]), nth=nth, what="interrupt", part=round(r.random(), 2)))
        elif what == "stall":
            faults.append(dict(stream=name, on=r.choice(["write", "flush"]), nth=nth, what="stall", seconds=r.choice([0.01, 1, 600])))
        elif what == "flush":
            faults.append(dict(stream=name, on="flush", nth=nth, what="oserror", errno=code))
        elif what == "valueerror" and name != "stderr":
            faults.append(dict(stream=name, on="write", nth=nth, what="valueerror", part=0.0))
        elif what == "short":
            faults.append(dict(stream=name, on="write", nth=nth, what="short", part=round(r.random(), 2)))
    return dict(
        threads=threads, streams=streams, faults=faults, first=r.choice([None, 0, 0, 0]),
        ext=[r.choice(["Trace", "Info", "Error"]) for _ in range(r.choice([0, 0, 1, 2]))], ext_early=r.random() < 0.5,
        crash=r.choice([None, None, None, r.randrange(20, 900)]), fine=r.random() < 0.3,
        sched=dict(seed=r.randrange(1 << 40), gap=r.choice([5, 20, 60, 200])),
    )


def execute(plan, ctx):
    trace = sched.tracer((REPO + "/diamondback/commons/",), ("loguru/_logger.py", "loguru/_handler.py", "loguru/_simple_sinks.py") if plan["fine"] else ())
    s = sched.Scheduler(plan["sched"], ctx, trace)
    faults = Faults([], ctx)
    out = Stream("stdout", s, pieces=2, faults=faults)
    err = Stream("stderr", s, faults=faults)
    with Machine(s, stdout=out, stderr=err) as m:
        streams = [File(f"s{k}", s, faults, spec["size"]) if spec.get("file") else Stream(f"s{k}", s, faults=faults, **spec) for k, spec in enumerate(plan["streams"])]
        every = streams + [out]
        exts = []

        def add_ext():
            for k, level in enumerate(plan["ext"]):
                st = Stream(f"ext{k}", s)
                exts.append((st, LEVELS[level.upper()]))
                m.logger.add(st, level=level.upper(), format="EXT {message}", colorize=False)

        if plan["ext_early"]:
            add_ext()
        first = plan["first"] if plan["first"] is None or plan["first"] < len(streams) else None
        if first is not None:
            m.Log.stream(streams[first])
        if not plan["ext_early"]:
            add_ext()
        ops, stamp, current = [], [0], {}

        def tick():
            stamp[0] += 1
            return stamp[0]

        def on_fault(stream, f):
            rec = current.get(s.current.index) if s.current else None
            ctx.event("fault", stream, f["on"], f["what"])
            if rec is not None and stream != "stderr":
                rec["failed"] = True
                rec["interrupted"] = rec["interrupted"] or f["what"] == "interrupt"
            elif rec is not None:
                rec["interrupted"] = rec["interrupted"] or f["what"] == "interrupt"

        faults.on_fault = on_fault
        faults.specs = {(f["stream"], f["on"], f["nth"]): f for f in plan["faults"]}

        def call(op, who):
            rec = dict(inv=tick(), kind=op[0], ret=1 << 60, seen=None, who=who, op=op, failed=False, interrupted=False, error=None)
            ops.append(rec)
            current[who] = rec
            try:
                if op[0] == "stream":
                    if op[1] < len(streams):
                        rec["value"] = op[1]
                        m.Log.stream(streams[op[1]])
                        if any(o["failed"] for o in ops):
                            ctx.stat("redirect-after-fault")
                    else:
                        rec["kind"] = "none"
                else:
                    rec["no"], rec["message"] = LEVELS[op[1].upper()], f"entry-{op[2]}-{'x' * op[3]}."
                    rec["pattern"] = line_pattern(op[1], rec["message"])
                    m.Log.write(op[1], rec["message"])
            except KeyboardInterrupt:
                if not rec["interrupted"]:
                    rec["error"] = "KeyboardInterrupt without interruption"
            except Exception as ex:
                rec["error"] = f"{type(ex).__name__}: {ex}"
            rec["ret"] = tick()
            current[who] = None
            if op[0] == "write" and rec["no"] >= 20 and not rec["failed"] and not rec["interrupted"]:
                if not any(rec["pattern"].search(st.safe()) for st in every):
                    rec["error"] = rec["error"] or "returned, but a crash now would lose the entry"
            ctx.event(who, op, rec["inv"], rec["ret"], rec["error"])

        for t, spec in enumerate(plan["threads"]):
            s.spawn(f"t{t}", lambda ops=spec["ops"], t=t: [call(o, t) for o in ops])
        s.abort_at = plan["crash"]
        s.run()
        crashed = s.abort_at is not None and s.aborting and not s.deadlock and not s.overrun
        for t in s.tasks:
            if t.error:
                raise t.error
        check(not s.overrun, "no-progress", "the calls do not end")
        check(s.deadlock is None, "deadlock", f"threads wait for ever: {s.deadlock}; faults {plan['faults']}")
        for o in ops:
            check(not o["error"], "caller", f"{o['op']} {o['error']}")
        texts = [st.safe() if crashed else st.content() for st in every]
        for st, text in zip(every, texts):
            ctx.event(st.name, text)
        if crashed:
            ctx.fault("crash")
            for o in ops:
                if o["kind"] == "write" and o["ret"] < 1 << 60 and o["no"] >= 20 and not o["failed"] and not o["interrupted"]:
                    check(any(o["pattern"].search(t) for t in texts), "durable", f"{o['op']} returned before the crash but is lost")
            return
        place = {}
        for k, (st, text) in enumerate(zip(every, texts)):
            found, pos, residue = [], 0, 0
            for o in ops:
                if o["kind"] == "write":
                    for match in o["pattern"].finditer(text):
                        check(id(o) not in place, "duplicate", f"{o['message']} appears more than once")
                        place[id(o)] = (k if k < len(streams) else "stdout", match.start())
                        found.append((match.start(), match.end()))
            for a, b in sorted(found) + [(len(text), len(text))]:
                gap = text[pos:a]
                if gap:
                    check(any(o["failed"] or o["interrupted"] for o in ops), "torn", f"{gap!r} on {st.name} without any failure")
                residue += len(gap)
                pos = b
            most = sum(len(o["message"]) + 80 for o in ops if o["kind"] == "write" and (o["failed"] or o["interrupted"]))
            check(residue <= most, "torn", f"{residue} characters on {st.name} belong to no entry: {text!r}")
        optional = set()
        for i, o in enumerate(ops):
            o["seen"] = place.get(id(o))
            if o["failed"] or o["interrupted"]:
                optional.add(i)
                if o["kind"] == "write":
                    o["seen"] = None
                elif o["interrupted"]:
                    raise Violation("redirect", "a redirection wrote to a stream")
        if linearise(ops, 20, first if first is not None else "stdout", optional) is False:
            raise Violation("order", "entries whose output did not fail are missing or misplaced: " + "; ".join(f"t{o['who']} {o['op']} [{o['inv']},{o['ret']}] -> {place.get(id(o))}{' failed' if o['failed'] else ''}" for o in ops))
        for st, no in exts:
            for o in ops:
                if o["kind"] == "write" and not o["interrupted"]:
                    n = st.content().count(f"EXT {o['message']}\n")
                    want = 1 if o["no"] >= max(20, no) else 0
                    check(n == want, "external", f"the output registered at level {no} received {o['op']} {n} times")
        # The log is usable afterwards, whatever happened.
        faults.specs = {}
        faults.on_fault = None
        end = Stream("end", s)
        try:
            m.Log.stream(end)
            m.Log.write("Info", "afterwards")
        except sched.Deadlock:
            raise Violation("deadlock", "the log is blocked for ever after the faults")
        check(line_pattern("Info", "afterwards").fullmatch(end.safe()), "afterwards", f"after the faults a new stream received {end.safe()!r}")
        ctx.stat("calls", len(ops))
        ctx.stat("failed-entries", len(optional))
        ctx.state(ctx.digest())
