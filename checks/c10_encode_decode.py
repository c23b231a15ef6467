"""C10: what one process encodes, any other decodes to an equal instance."""

import time

import numpy

from sim import kit, runtime, sched, values, zoo
from sim.kit import InvalidPlan, check

ID = "C10"
RUNS = dict(quick=9000, thorough=700000)
NEEDS_FAULTS = True
SHRINK_LISTS = ("ops", "tasks", "probe", "v", "switches")
RULE = ("A run is a history of up to 14 steps over several simulated processes: make a component or collection, operate it, encode it (compressed or not, three text encodings) at a drawn clock, decode any earlier encoding in the present process and operate the decoded instance further, start a new process in which nothing exists, "
        "and up to 4 threads which encode and decode the same and different instances under the scheduler, preempted at byte codes of the serializer and lines of the components; every decoded instance is compared with a twin rebuilt from the recipe of the encoded one; "
        "non-trivial if a new process was started, the clock moved or threads were preempted; distinct by digest of the event log.")
STATE = "distinct (kind of instance, compressed, text encoding, same or later process, decoded before anything else, number of operations before)"
REAL = ["diamondback.commons.serial, pickle, gzip, base64", "all filters, models and transforms with a constructor", "numpy, scipy, scikit-learn, pandas"]
STUB = ["process start (modules executed anew)", "clock (time.time simulated)", "thread scheduling, threading primitives"]
ASSUMPTIONS = ["clocks from 1970 to 2106, which the gzip format can represent", "text encodings which extend ASCII", "equality is judged by everything readable of an instance and by its outputs for further signals, to 1e-9"]
PROBES = tuple(k.name for k in zoo.STREAMS + zoo.MODELS) + ("window", "polynomial", "wavelet", "rest", "collection", "restart", "first-in-process", "compressed", "plain", "clock-jump", "threads", "decoded-again", "concurrent-same")
KIND_NAMES = [k.name for k in zoo.STREAMS + zoo.MODELS] + ["window", "polynomial", "wavelet"]
CLOCKS = [0.0, 1.0, 86399.999, 951782400.5, 1700000000.25, 2147483647.0, 2147483648.0, 4294967295.0, 4102444800.0]
PRINTABLE = set("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~")


def prepare():
    runtime.fast_design()
    zoo.quiet()


def draw_item(r):
    k = r.random()
    if k < 0.006:
        return dict(what="value", spec=dict(t="array", seed=r.randrange(1 << 30), dtype="float64", shape=[r.choice([3000, 9000, 20000, 40000])], form="C"))
    if k < 0.25:
        return dict(what="value", spec=values.draw(r))
    if k < 0.28:
        return dict(what="rest", url=r.choice(["http://svc:8080", "http://svc/base"]), proxy=r.choice([{}, {"http": "http://p:1"}]), timeout=r.choice([[1.0, 2.0], [10.0, 60.0], [0.5, 0.5]]))
    name = r.choice(KIND_NAMES)
    c = zoo.kind(name).cfg(r)
    return dict(what="component", kind=name, cfg=c, probe=[zoo.kind(name).draw_op(r, c) for _ in range(2)])


def first_use(r):
    """Several threads of a new process decode and operate at once."""
    name = r.choice(["polyphase", "polyphase", r.choice(KIND_NAMES)])
    items, ops = [], []
    for i in range(r.choice([1, 2, 2])):
        c = zoo.kind(name).cfg(r)
        items.append(dict(what="component", kind=name, cfg=c, probe=[zoo.kind(name).draw_op(r, c) if name in ("gaussian", "mixture") else ["x", zoo.kind(name).draw(r, c, r.choice([2, 5, 20]))], zoo.kind(name).draw_op(r, c)]))
        ops += [["make", i], ["encode", i, i, r.random() < 0.6, "utf-8"]]
    ops += [["restart"], ["threads", dict(tasks=[[["decode", r.randrange(len(items)), True]] for _ in range(r.choice([2, 2, 3]))])]]
    ops.append(["decode", 0, False])
    return dict(items=items, ops=ops, clock=r.choice(CLOCKS), sched=r.choice([dict(gap=20), dict(gap=100), dict(gap=600), dict(gap=2000), dict(gap=3000, budget=1), dict(gap=6000, budget=1), dict(gap=6000, budget=2), dict(gap=12000, budget=1)]) | dict(seed=r.randrange(1 << 40)))


def generate(r, tier):
    if r.random() < 0.1:
        return first_use(r)
    ops, items = [], []
    encs = 0
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        items.append(draw_item(r))
    for i in range(len(items)):
        ops.append(["make", i])
    for _ in range(r.randrange(3, 12)):
        k = r.random()
        i = r.randrange(len(items))
        if k < 0.25 and items[i]["what"] == "component":
            q = items[i]
            ops.append(["op", i, zoo.kind(q["kind"]).draw_op(r, q["cfg"])])
        elif k < 0.5 or not encs:
            ops.append(["encode", i, encs, r.random() < 0.6, r.choice(["utf-8", "utf-8", "ascii", "latin-1"])])
            encs += 1
        elif k < 0.62:
            ops.append(["restart"])
            if r.random() < 0.6:
                ops.append(["decode", r.randrange(encs), r.random() < 0.5])
        elif k < 0.68:
            ops.append(["clock", r.choice(CLOCKS + [round(r.uniform(0, 4.29e9), 3)])])
        elif k < 0.78:
            tasks = []
            for _ in range(r.choice([2, 2, 3, 4])):
                t = []
                for _ in range(r.choice([1, 2, 3])):
                    t.append(["decode", r.randrange(encs), r.random() < 0.5] if r.random() < 0.6 else ["encode", r.randrange(len(items)), r.random() < 0.5])
                tasks.append(t)
            ops.append(["threads", dict(tasks=tasks)])
        else:
            ops.append(["decode", r.randrange(encs), r.random() < 0.5])
    return dict(items=items, ops=ops, clock=r.choice(CLOCKS), sched=dict(seed=r.randrange(1 << 40), gap=r.choice([2, 5, 20, 60, 400])))


def realise(lib, item, ops):
    """The instance made by a recipe, in a given process."""
    if item["what"] == "value":
        return values.make(lib, item["spec"])
    if item["what"] == "rest":
        c = lib.RestClient()
        c.url, c.proxy, c.timeout = item["url"], dict(item["proxy"]), tuple(item["timeout"])
        return c
    k = zoo.kind(item["kind"])
    inst = k.make(lib, item["cfg"])
    for op in ops:
        k.apply(inst, op)
    return inst


def compare(item, got, want, where, operate=True):
    """got, decoded, equals want, made by the same recipe."""
    if item["what"] == "value":
        d = values.difference(item["spec"], got, want)
        check(d is None, "decoded", lambda: f"{where}: {d}")
        return
    check(type(got).__name__ == type(want).__name__, "decoded", lambda: f"{where}: {type(got).__name__} instead of {type(want).__name__}")
    if item["what"] == "rest":
        check((got.url, got.proxy, got.timeout) == (want.url, want.proxy, want.timeout), "decoded", lambda: f"{where}: {got.url} {got.proxy} {got.timeout}")
        return
    k = zoo.kind(item["kind"])
    zoo.same_read(k, got, want, where)
    if operate:
        for op in item["probe"]:
            a, b = k.apply(got, op), k.apply(want, op)
            zoo.same_outputs(k, a, b, f"{where}, then {op}", "continued", scale=zoo.magnitude(b))
        zoo.same_read(k, got, want, where + " and operated")


class Machine:
    def __init__(self, s):
        self.s, self.serial = s, 0
        self.start()

    def start(self):
        self.p = runtime.Process(substitute={"threading": sched.threading_proxy()})
        self.fresh, self.live = True, {}
        self.serial += 1


def execute(plan, ctx):
    items, clock = plan["items"], [plan["clock"]]
    real = time.time
    sources = (runtime.REPO + "/diamondback/commons/serial", runtime.REPO + "/diamondback/filters/polyphase")
    s = sched.Scheduler(plan["sched"], ctx, sched.tracer(sources, tuple(f"{n}.py" for n in ("filter", "model", "transform"))))
    m = Machine(s)
    oracle = runtime.Process()
    encodings, known = {}, set()
    time.time = lambda: clock[0]
    sched.activate(s)

    def item(i):
        if i >= len(items):
            raise InvalidPlan("item")
        return items[i]

    def twin(i, ops):
        with oracle:
            return realise(oracle, item(i), ops)

    def printable(text, where):
        check(isinstance(text, str) and set(text) <= PRINTABLE, "text", lambda: f"{where}: not printable: {sorted(set(text) - PRINTABLE)[:5]}")

    def describe(i):
        q = item(i)
        return f"{q['kind']} {q['cfg']}" if q["what"] == "component" else q["what"]

    try:
        for n, op in enumerate(plan["ops"]):
            if op[0] == "make":
                q = item(op[1])
                ctx.stat(q["kind"] if q["what"] == "component" else dict(value="collection", rest="rest")[q["what"]])
                with m.p:
                    m.live[op[1]] = (realise(m.p, q, []), [])
                m.fresh = False
            elif op[0] == "op":
                if op[1] not in m.live:
                    continue
                inst, ops = m.live[op[1]]
                with m.p:
                    zoo.kind(item(op[1])["kind"]).apply(inst, op[2])
                m.live[op[1]] = (inst, ops + [op[2]])
            elif op[0] == "encode":
                if op[1] not in m.live:
                    continue
                inst, ops = m.live[op[1]]
                with m.p:
                    text = m.p.Serial.encode(inst, compress=op[3], encoding=op[4])
                where = f"step {n}: {describe(op[1])} encoded at {clock[0]}"
                printable(text, where)
                compare(item(op[1]), inst, twin(op[1], ops), where + ": the encoded instance itself", operate=False)
                encodings[op[2]] = (op[1], list(ops), text, op[3], op[4], m.serial, clock[0])
                ctx.stat("compressed" if op[3] else "plain")
                ctx.event("encode", op[1], len(text))
            elif op[0] == "restart":
                m.start()
                ctx.fault("restart")
            elif op[0] == "clock":
                clock[0] = op[1]
                ctx.fault("clock-jump")
            elif op[0] == "decode":
                if op[1] not in encodings:
                    continue
                i, ops, text, comp, enc, serial, when = encodings[op[1]]
                where = f"step {n}: {describe(i)} encoded {'with' if comp else 'without'} compression in process {serial} at {when} and decoded in process {m.serial} at {clock[0]}{' before anything else' if m.fresh else ''}"
                if m.fresh:
                    ctx.stat("first-in-process")
                if op[1] in known:
                    ctx.stat("decoded-again")
                known.add(op[1])
                ctx.state(items[i].get("kind", items[i]["what"]), comp, enc, serial == m.serial, m.fresh, min(3, len(ops)))
                with m.p:
                    try:
                        got = m.p.Serial.decode(text, encoding=enc)
                    except Exception as ex:
                        check(False, "not-decoded", f"{where}: {type(ex).__name__}: {ex}")
                    m.fresh = False
                    compare(item(i), got, twin(i, ops), where)
                ctx.event("decoded", i)
                if op[2]:
                    if item(i)["what"] == "component":
                        ops = ops + item(i)["probe"]
                    m.live[i] = (got, ops)
            elif op[0] == "threads":
                threads(op[1], m, s, plan, ctx, encodings, item, twin, describe, n, printable)
        for i, (inst, ops) in sorted(m.live.items()):
            with m.p:
                compare(item(i), inst, twin(i, ops), f"{describe(i)} at the end")
    finally:
        time.time = real
        sched.activate(None)


def threads(spec, m, s, plan, ctx, encodings, item, twin, describe, n, printable):
    if s.tasks:  # one scheduler per run: later sections run one after another
        return
    ctx.stat("threads")
    out, fresh = [], m.fresh

    def body(t, ops):
        for op in ops:
            try:
                if op[0] == "decode" and op[1] in encodings:
                    i, done, text, comp, enc, serial, when = encodings[op[1]]
                    got, y = m.p.Serial.decode(text, encoding=enc), None
                    if len(op) > 2 and op[2] and item(i)["what"] == "component" and item(i)["probe"][0][0] != "fit":  # operated at once, in the thread (a fit draws from the shared generator)
                        k, first = zoo.kind(item(i)["kind"]), item(i)["probe"][0]
                        y = (first, k.apply(got, first))
                    out.append((t, "decode", i, list(done), got, y))
                elif op[0] == "encode" and op[1] in m.live:
                    inst, done = m.live[op[1]]
                    out.append((t, "encode", op[1], list(done), m.p.Serial.encode(inst, compress=op[2]), None))
            except kit.InvalidPlan:
                raise
            except Exception as ex:
                out.append((t, "error", op, [], f"{type(ex).__name__}: {ex}", None))

    named = [op[1] for t in spec["tasks"] for op in t if op[0] == "decode"]
    if len(named) != len(set(named)):
        ctx.stat("concurrent-same")
    with m.p:
        for t, ops in enumerate(spec["tasks"]):
            s.spawn(f"t{t}", lambda t=t, ops=ops: body(t, ops))
        s.run()
        for t in s.tasks:
            if t.error:
                raise t.error
        check(s.deadlock is None, "no-progress", f"threads wait for ever: {s.deadlock}")
        if s.preemptions:
            ctx.fault("preemption", s.preemptions)
        m.fresh = m.fresh and not out
        for t, what, i, done, value, y in out:
            check(what != "error", "not-decoded", lambda: f"step {n}: thread {t}{' in a new process' if fresh else ''}: {i}: {value}")
            where = f"step {n}: {describe(i)} {what}d by thread {t} of {len(spec['tasks'])}"
            if what == "encode":
                printable(value, where)
                value = m.p.Serial.decode(value)
            want = twin(i, done)
            if y:
                ctx.stat("operated-in-thread")
                k, x = zoo.kind(item(i)["kind"]), item(i)
                b = k.apply(want, y[0])
                zoo.same_outputs(k, y[1], b, f"{where} and operated there", "continued", scale=zoo.magnitude(b))
            compare(item(i), value, want, where)
            ctx.event(t, what, i)
