"""C15: instances do not influence each other, arguments and results are not shared."""

import copy

import numpy

from sim import kit, runtime, sched, zoo
from sim.kit import InvalidPlan, check

ID = "C15"
RUNS = dict(quick=9000, thorough=900000)
SHRINK_LISTS = ("ops", "parts", "order", "switches")
RULE = ("A run interleaves 2 to 5 components of drawn kinds (several of one kind in half of the runs; filters, models, transforms), in one thread in a drawn order or in 2 to 3 threads preempted at lines and byte codes of the library; "
        "after an operation the caller may overwrite the array it gave (to a constructor, setting or operation) or the array it got, hand the same array to several components, refill one array for each operation, make a filter of the coefficients and the state of another, encode an instance, overwrite the arrays read from an instance it no longer uses, or drop it; arguments are compared with copies after each operation and at the end, results with copies at the end, and all outputs with those of each component operated alone in its own process; "
        "non-trivial if an array was overwritten or shared or threads were preempted; distinct by digest of the event log.")
STATE = "distinct (kind, other kind operated just before, operation, overwritten argument, overwritten result, shared, threads)"
REAL = ["all filters, models and transforms, serial", "numpy, scipy, scikit-learn"]
STUB = ["thread scheduling, threading primitives", "process start for the reference (modules executed anew)"]
ASSUMPTIONS = ["an instance is used by one thread at a time", "randomised fits happen in one thread", "the filter bank of PolyphaseRateFilter is a constant which the caller does not modify", "outputs agree to 1e-12 of the largest value so far"]
PROBES = tuple(k.name for k in zoo.KINDS.values()) + ("overwritten-argument", "overwritten-result", "overwritten-setting", "overwritten-constructor", "overwritten-state", "refilled-argument", "made-of-another", "shared-argument", "threads", "same-kind", "encoded", "dropped")


def prepare():
    runtime.fast_design()
    zoo.quiet()


def draw_part(r, name=None, threads=False, c=None):
    k = zoo.kind(name) if name else r.choice(zoo.STREAMS * 2 + zoo.MODELS + zoo.STATICS)
    while threads and k.name == "mixture":
        k = r.choice(zoo.STREAMS)
    c = dict(c) if c else k.cfg(r)
    ops = []
    reuse, n = r.random() < 0.25, r.choice([1, 2, 5, 20])
    for _ in range(r.choice([2, 4, 8]) if k.streaming else r.choice([2, 3, 5])):
        if r.random() < 0.05:
            ops.append(dict(op=["encode"]))
            continue
        op = k.draw_op(r, c, n) if reuse and k.streaming else k.draw_op(r, c)
        if reuse and op[0] in ("x", "fit", "predict"):  # in the same buffer, where the form allows
            first = [q["op"] for q in ops if q["op"][0] == op[0]]
            if first and not k.streaming:
                op = [op[0], dict(copy.deepcopy(first[0][1]), seed=r.randrange(1 << 30))]
            if op[1].get("form") in ("list", "readonly", "view", "reverse", "rows", "fortran"):
                op[1]["form"] = "array"
        if k.asks and r.random() < 0.1:
            op = ["ask", r.choice(["response", "response", "delay"]), 16, 1]
        q = dict(op=op)
        if op[0] in ("x", "fit", "predict", "set", "ask"):
            q["argument"], q["result"] = r.random() < 0.4, r.random() < 0.4
        ops.append(q)
    return dict(kind=k.name, cfg=c, ops=ops, reuse=reuse, constructor=r.random() < 0.5, drop=r.random() < 0.1, scribble=r.random() < 0.3)


def generate(r, tier):
    nt = r.choice([1, 1, 1, 2, 3])
    n = r.choice([2, 2, 3, 5])
    parts = [draw_part(r, threads=nt > 1)]
    same = r.random() < 0.5
    while len(parts) < n:
        parts.append(draw_part(r, parts[0]["kind"] if same else None, nt > 1, parts[0]["cfg"] if same and r.random() < 0.4 else None))
    if r.random() < 0.35:  # the same signal for several
        for p in parts[1:]:
            for q in p["ops"]:
                donors = [d["op"] for d in parts[0]["ops"] if d["op"][0] == q["op"][0] == "x"]
                if donors and zoo.kind(p["kind"]).streaming and p["kind"] == parts[0]["kind"]:
                    q["op"] = r.choice(donors)
                    q["share"] = True
    for i, p in enumerate(parts):  # made of the coefficients and the state of another
        if i and nt < 2 and p["kind"] in ("fir", "iir") and r.random() < 0.5:
            same = [j for j in range(i) if parts[j]["kind"] == p["kind"] and parts[j]["cfg"] == p["cfg"]]
            if same:
                p["of"] = r.choice(same)
    order = [i for i, p in enumerate(parts) for _ in p["ops"]]
    r.shuffle(order)
    return dict(parts=parts, order=order, threads=nt, sched=dict(seed=r.randrange(1 << 40), gap=r.choice([2, 5, 20, 100])))


ARRAYS = dict(fir=("b", "s"), iir=("a", "b", "s"), goertzel=("b",), pid=("b",))


def construct(k, lib, c):
    """The instance and the arrays given to its constructor."""
    if k.name not in ARRAYS or "design" in c or c.get("aslist"):
        return k.make(lib, c), []
    args = {n: zoo.dec(c[n]) if k.name != "goertzel" else numpy.array(c[n]) for n in ARRAYS[k.name] if n in c}
    more = dict(frequency=c["frequency"]) if k.name == "goertzel" else {}
    inst = getattr(lib, k.cls)(**args, **more)
    return inst, list(args.values())


def arguments(k, op):
    """The arrays and lists given to one operation."""
    op = copy.deepcopy(op)
    if op[0] == "x":
        if k in zoo.STATICS:
            return k.arguments(op[1])
        if k.name == "diversity":
            return dict(x=zoo.argument(op[1], zoo.rows(op[1])))
        return dict(x=zoo.piece(op[1])[0])
    if op[0] == "fit":
        x, y = zoo.labelled(op[1])
        return dict(x=x, y=y)
    if op[0] == "predict":
        return dict(x=zoo.argument(op[1], zoo.rows(op[1])))
    if op[0] == "set":
        v = k.value(op[1], op[2])
        return dict(v=v) if isinstance(v, numpy.ndarray) else {}
    return {}


def operate(k, inst, op, args):
    if op[0] == "x":
        if k in zoo.STATICS:
            return k.call(inst, args, op[1])
        if k.name == "diversity":
            return [inst.fit(args["x"])]
        return k.run(inst, args["x"])
    if op[0] == "fit":
        if k.name == "mixture":
            numpy.random.seed(op[1].get("random", 0) % (1 << 32))
        inst.fit(args["x"], args["y"])
        return []
    if op[0] == "predict":
        return [inst.predict(args["x"])] if inst.shape else []
    if op[0] == "set" and args:
        setattr(inst, op[1], args["v"])
        return []
    return k.apply(inst, op)


def overwrite(v):
    if isinstance(v, numpy.ndarray):
        if not v.flags.writeable or not v.size:
            return False
        v[...] = 77
        return True
    if isinstance(v, list):
        for i in range(len(v)):
            v[i] = [77.0] * len(v[i]) if isinstance(v[i], (list, numpy.ndarray)) else 77.0
        return True
    return False


def scribble(v):
    if isinstance(v, tuple):
        return any([scribble(x) for x in v])
    return isinstance(v, numpy.ndarray) and overwrite(v)


def content(v):
    if isinstance(v, numpy.ndarray):
        return kit.array_digest(v)
    if isinstance(v, list):
        return [content(x) if isinstance(x, (numpy.ndarray, list)) else repr(x) for x in v]
    return repr(v)


def execute(plan, ctx):
    parts = plan["parts"]
    kinds = [zoo.kind(p["kind"]) for p in parts]
    expected, scales = [], []
    for k, p in zip(kinds, parts):
        lib = runtime.Process()
        with lib:
            inst, _ = construct(k, lib, p["cfg"])
            out, sc, m = [], [], 0.0
            for q in p["ops"]:
                y = [] if q["op"][0] == "encode" else operate(k, inst, q["op"], arguments(k, q["op"]))
                m = max(m, zoo.magnitude(y))
                out.append(y)
                sc.append(m)
            expected.append((out, k.read(inst)))
            scales.append(sc)
    sources = tuple(runtime.REPO + f"/diamondback/{d}/" for d in ("filters", "models", "transforms"))
    s = sched.Scheduler(plan["sched"], ctx, sched.tracer(sources if plan["sched"].get("gap", 2) > 2 else (), ("filter.py", "model.py", "transform.py", "serial.py")))
    sched.activate(s)
    try:
        process = runtime.Process(substitute={"threading": sched.threading_proxy()})
        live, kept, results, pool, buffers = [None] * len(parts), [], [], {}, {}
        done = [0] * len(parts)
        previous = ["none"]
        if len({p["kind"] for p in parts}) < len(parts):
            ctx.stat("same-kind")

        def where(i, n):
            return f"{kinds[i].name} {parts[i]['cfg']} operation {n} {parts[i]['ops'][n]['op'] if n >= 0 else 'construction'} (with {[q['kind'] for j, q in enumerate(parts) if j != i]})"

        def build(i):
            donor = parts[i].get("of", i)
            if donor < i and parts[donor]["kind"] == parts[i]["kind"] and parts[donor]["cfg"] == parts[i]["cfg"]:
                ctx.fault("made-of-another")
                live[i] = getattr(process, kinds[i].cls)(**{n: getattr(live[donor], n) for n in ARRAYS[kinds[i].name]})
                return
            inst, given = construct(kinds[i], process, parts[i]["cfg"])
            for v in given:
                kept.append((v, content(v), where(i, -1)))
                if parts[i]["constructor"] and overwrite(v):
                    ctx.fault("overwritten-constructor")
                    kept[-1] = (v, content(v), where(i, -1))
            live[i] = inst

        def step(i):
            n, k, p = done[i], kinds[i], parts[i]
            if n >= len(p["ops"]):
                return
            done[i] += 1
            q = p["ops"][n]
            op = q["op"]
            ctx.stat(k.name)
            if op[0] == "encode":
                if not isinstance(live[i], type):
                    process.Serial.encode(live[i], compress=False)
                ctx.stat("encoded")
                return
            args = arguments(k, op)
            if q.get("share"):
                args = pool.setdefault(kit.plain([k.name if k in zoo.STATICS else "", op[1]]), args)
                ctx.fault("shared-argument")
            if p["reuse"] and not q.get("share"):
                for a, v in args.items():
                    if type(v) is numpy.ndarray and v.flags.writeable and v.flags.c_contiguous and v.base is None:
                        u = buffers.setdefault((i, a, v.dtype.str, v.shape), v)
                        if u is not v:
                            u[...] = v
                            args[a] = u
                            kept[:] = [(x, content(x), w) if x is u else (x, d, w) for x, d, w in kept]
                            ctx.fault("refilled-argument")
            before = {a: content(v) for a, v in args.items()}
            y = operate(k, live[i], op, args)
            for a, v in args.items():
                check(content(v) == before[a], "argument", lambda: f"{where(i, n)} changed its argument {a}")
                kept.append((v, before[a], where(i, n)))
            zoo.same_outputs(k, y, expected[i][0][n], where(i, n), "influenced", tol=1e-12, scale=scales[i][n])
            for v in y:
                ctx.values(k.name, v)
            fixed = [(v, content(v)) for v in y]
            if q.get("argument") and not q.get("share"):
                for a, v in args.items():
                    if overwrite(v):
                        ctx.fault("overwritten-setting" if op[0] == "set" else "overwritten-argument")
                        kept[:] = [(u, content(u), w) if u is v else (u, d, w) for u, d, w in kept]
                for v, d in fixed:
                    check(content(v) == d, "result", lambda: f"{where(i, n)}: the result changed with the argument")
            for v, d in fixed:
                if q.get("result") and overwrite(v):
                    ctx.fault("overwritten-result")
                    d = content(v)
                results.append((v, d, where(i, n)))
            if q.get("result"):
                for a, v in args.items():
                    check(content(v) == before[a] or q.get("argument"), "argument", lambda: f"{where(i, n)}: the argument changed with the result")
            ctx.state(k.name, previous[0], op[0], bool(q.get("argument")), bool(q.get("result")), bool(q.get("share")), plan["threads"])
            previous[0] = k.name
            ctx.steps += 1
            if done[i] == len(p["ops"]):
                zoo.same_read(k, live[i], expected[i][1], where(i, n), tol=1e-12)
                if p["scribble"] and not isinstance(live[i], type):
                    # The arrays read from an instance are its own, but for the filter bank of all polyphase filters.
                    names = [a for a in dir(type(live[i])) if isinstance(getattr(type(live[i]), a), property) and (k.name, a) != ("polyphase", "b")]
                    if any([scribble(getattr(live[i], a)) for a in names]):
                        ctx.fault("overwritten-state")
                if p["drop"]:
                    live[i] = None
                    ctx.stat("dropped")

        with process:
            if plan["threads"] < 2:
                for i in range(len(parts)):
                    build(i)
                for i in plan["order"]:
                    if i < len(parts):
                        step(i)
            else:
                ctx.stat("threads")
                nt = plan["threads"]

                def body(t):
                    mine = [i for i in range(len(parts)) if i % nt == t]
                    for i in mine:
                        build(i)
                    for i in plan["order"]:
                        if i in mine:
                            step(i)

                for t in range(nt):
                    s.spawn(f"t{t}", lambda t=t: body(t))
                s.run()
                if s.preemptions:
                    ctx.fault("preemption", s.preemptions)
                for t in s.tasks:
                    if t.error:
                        raise t.error
                check(s.deadlock is None, "no-progress", f"threads wait for ever: {s.deadlock}")
        for v, d, w in kept:
            check(content(v) == d, "argument", lambda: f"{w}: the argument was changed later")
        for v, d, w in results:
            check(content(v) == d, "result", lambda: f"{w}: the result was changed later")
    finally:
        sched.activate(None)
