"""C01: concurrent logging is linearizable."""

from sim import sched
from sim.kit import Violation, check
from sim.logsim import LEVELS, Faults, Machine, Stream, line_pattern, linearise
from sim.runtime import REPO

ID = "C01"
RUNS = dict(quick=10000, thorough=400000)
NEEDS_FAULTS = True
SHRINK_LISTS = ("ops", "threads", "switches", "before", "streams", "stalls")
RULE = ("A run draws 2 to 4 threads with 1 to 6 calls each (level, redirect, write; up to 16 in all), stream kinds and a seeded schedule which preempts at byte codes of the log, "
        "lines of the underlying logger, lock operations and steps inside stream writes, and streams which stall for up to 15 minutes; non-trivial if at least two threads ran and one preemption happened; distinct by digest of the complete event log.")
STATE = "distinct event logs (context switches with their positions, calls, returns, final texts)"
REAL = ["diamondback.commons.log", "loguru (complete)", "datetime arithmetic, time zone handling of the C library"]
STUB = ["threading locks (simulated, scheduler controlled)", "text streams", "wall clock", "standard output and error"]
ASSUMPTIONS = ["a context switch inside the C implementation of one byte code is not explored", "streams write text as a sequence of parts in which other threads may run"]
PROBES = ("preemptions", "lock-waits", "redirects-in-concurrency", "below-threshold", "first-use-race", "write-stall", "flush-stall")

NAMES = [n.title() for n in LEVELS] + ["INFO", "warning"]
LINES = ("loguru/_logger.py", "loguru/_handler.py", "loguru/_simple_sinks.py")


def generate(r, tier):
    threads, m, total = [], 0, 0
    nt = r.choice([2, 2, 2, 3, 3, 4])
    mix = r.choice([(1, 1, 3), (1, 3, 3), (3, 1, 3), (0, 2, 4), (0, 0, 1), (1, 2, 2)])
    ns = r.choice([1, 2, 2, 3])
    for t in range(nt):
        ops = []
        for _ in range(r.randrange(1, 7)):
            if total >= 16:
                break
            kind = r.choices(["level", "stream", "write"], mix)[0]
            if kind == "level":
                ops.append(["level", r.choice(NAMES)])
            elif kind == "stream":
                ops.append(["stream", r.randrange(ns)])
            else:
                ops.append(["write", r.choice(NAMES), m])
                m += 1
            total += 1
        if ops:
            threads.append(dict(ops=ops))
    before = []
    if r.random() < 0.6:
        before.append(["stream", r.randrange(ns)])
    if r.random() < 0.3:
        before.append(["level", r.choice(NAMES)])
    return dict(
        threads=threads,
        before=before,
        stalls=[dict(stream=r.choice([f"s{r.randrange(ns)}", "stdout"]), on=r.choice(["write", "write", "flush"]), nth=r.randrange(6), what="stall", seconds=r.choice([0.05, 2, 15, 900])) for _ in range(r.choice([0, 0, 0, 1, 2]))],
        streams=[dict(tty=r.random() < 0.2, pieces=r.choice([1, 2, 3, 6]), flushes=r.random() < 0.8) for _ in range(ns)],
        fine=r.random() < 0.5,
        sched=dict(seed=r.randrange(1 << 40), gap=r.choice([3, 8, 20, 60, 150, 400])),
    )


def execute(plan, ctx):
    trace = sched.tracer((REPO + "/diamondback/commons/",), LINES if plan["fine"] else ())
    s = sched.Scheduler(plan["sched"], ctx, trace)
    faults = Faults(plan["stalls"], ctx)
    out = Stream("stdout", s, pieces=2, faults=faults)
    with Machine(s, stdout=out) as m:
        streams = [Stream(f"s{k}", s, faults=faults, **spec) for k, spec in enumerate(plan["streams"])]
        every = streams + [out]
        ops, stamp = [], [0]

        def tick():
            stamp[0] += 1
            return stamp[0]

        def call(op, who):
            rec = dict(inv=tick(), kind=op[0], ret=1 << 60, seen=None, who=who, op=op)
            ops.append(rec)
            if op[0] == "level":
                rec["value"] = LEVELS[op[1].upper()]
                m.Log.level(op[1])
            elif op[0] == "stream":
                if op[1] >= len(streams):
                    rec["kind"] = "none"
                else:
                    rec["value"] = op[1]
                    m.Log.stream(streams[op[1]])
            else:
                rec["no"], rec["message"] = LEVELS[op[1].upper()], f"entry-{op[2]}-{'x' * (op[2] % 5)}."
                m.Log.write(op[1], rec["message"])
            rec["ret"] = tick()
            ctx.event(who, op, rec["inv"], rec["ret"])

        for op in plan["before"]:
            call(op, -1)
        initialised = any(o[0] == "stream" for o in plan["before"])
        for t, spec in enumerate(plan["threads"]):
            s.spawn(f"t{t}", lambda ops=spec["ops"], t=t: [call(o, t) for o in ops])
        s.run()
        for t in s.tasks:
            if t.error:
                raise Violation("exception", f"a valid call raised {type(t.error).__name__}: {t.error}")
        check(not s.overrun, "no-progress", "the calls do not end")
        check(s.deadlock is None, "deadlock", f"threads wait for each other: {s.deadlock}")
        # Every text consists of whole entries, each at most once anywhere.
        place = {}
        for k, st in enumerate(every):
            text, pos = st.content(), 0
            found = []
            for o in ops:
                if o["kind"] == "write":
                    for match in line_pattern(o["op"][1], o["message"]).finditer(text):
                        found.append((match.start(), match.end(), id(o)))
                        check(id(o) not in place, "duplicate", f"{o['message']} appears more than once")
                        place[id(o)] = (k if k < len(streams) else "stdout", match.start())
            for a, b, _ in sorted(found):
                check(a == pos, "torn", f"text between entries on {st.name}: {text[pos:a]!r}")
                pos = b
            check(pos == len(text), "torn", f"text after entries on {st.name}: {text[pos:]!r}")
            ctx.event(st.name, text)
        for o in ops:
            o["seen"] = place.get(id(o))
        err = m.stderr.content()
        check("entry-" not in err and not err, "stderr", f"standard error received {err[-300:]!r}")
        ok = linearise(ops, LEVELS["INFO"], "stdout")
        if ok is False:
            raise Violation("order", "no order of the calls explains the result: " + "; ".join(f"t{o['who']} {o['op']} [{o['inv']},{o['ret']}] -> {o['seen']}" for o in ops))
        if ok is None:
            ctx.stat("history-too-long")
        ctx.nontrivial = s.preemptions > 0 and len(plan["threads"]) > 1
        ctx.stat("calls", len(ops))
        ctx.stat("delivered", len(place))
        ctx.stat("below-threshold", sum(o["kind"] == "write" and o["seen"] is None for o in ops))
        ctx.stat("redirects-in-concurrency", sum(o["kind"] == "stream" and o["who"] >= 0 for o in ops))
        ctx.stat("lock-waits", s.waits)
        if not initialised and sum(any(o[0] in ("write", "stream") for o in t["ops"]) for t in plan["threads"]) > 1:
            ctx.stat("first-use-race")
        ctx.state(ctx.digest())
