"""C22: a classifier depends only on its last fit, and judges each row alone."""

import pickle
import random

import numpy

from sim import kit, runtime, sched, zoo
from sim.kit import InvalidPlan, check

ID = "C22"
RUNS = dict(quick=16000, thorough=800000)
NEEDS_FAULTS = False
SHRINK_LISTS = ("ops", "threads")
RULE = ("A run takes one classifier through fits, changes of settings, predictions, failed fits and restarts, interleaved with fits and predictions of another instance and uses of the random generator; predictions are compared with those of a new instance given only the last fit in the same state of the generator, "
        "and of instances fitted with other labels in the same order and with the same rows in another order, each batch with its rows alone, permuted, repeated and divided, and in some runs two to four threads predict on the same instance under the simulated scheduler; distinct by digest of the predictions.")
STATE = "distinct (classifier, order, sequence of operations, threads, preemptions)"
REAL = ["diamondback.models.GaussianModel, GaussianMixtureModel, diamondback.commons.Serial", "numpy, scipy, scikit-learn"]
STUB = ["thread scheduler"]
ASSUMPTIONS = ["two classes whose order the least change of a row (1e-9) turns round are as likely as rounding can tell, and either order is accepted from different batches", "predictions of one process on one machine are exactly reproducible", "context switches at byte codes of the models and not within numpy and scikit-learn"]
PROBES = ("gaussian", "mixture", "refit", "fit", "set", "other", "random", "fail", "restart", "alone", "permuted", "refilled", "divided", "threads", "one-class", "large-batch", "classes-change", "dimension-change", "relabelled", "reordered")


def prepare():
    zoo.quiet()
    import warnings

    warnings.simplefilter("ignore")


def generate(r, tier):
    k = zoo.kind(r.choice(["gaussian", "gaussian", "mixture"]))
    c = k.cfg(r)
    ops = []

    def data():
        d = k.data(r, c)
        if r.random() < 0.15:
            d["dim"] = r.choice([1, 2, 3])
        return d

    ops.append(["fit", data()])
    for _ in range(r.choice([1, 3, 5, 8])):
        u = r.random()
        if u < 0.25:
            ops.append(["fit", data()])
        elif u < 0.35:
            ops.append(["set", *k.draw_set(r, c)])
        elif u < 0.5:
            ops.append(["other", data()])
        elif u < 0.58:
            ops.append(["random", r.randrange(1, 50)])
        elif u < 0.66:
            ops.append(["fail", r.choice([b for b in k.bad(r, c) if b[0] in ("fit", "predict")])])
        elif u < 0.76:
            ops.append(["restart", r.choice(["encode", "compress", "pickle"])])
        else:
            ops.append(["predict", dict(k.query(r, c), seed=r.randrange(1 << 30), n=r.choice([1, 2, 5, 9]))])
    ops.append(["predict", dict(k.query(r, c), seed=r.randrange(1 << 30), n=r.choice([4, 9]))])
    if r.random() < 0.02:
        ops[-1][1]["n"] = r.choice([33, 65, 100, 130, 257, 300] if k.name == "gaussian" else [33, 70, 130])
    threads = []
    if r.random() < 0.35:
        threads = [[dict(k.query(r, c), n=r.choice([1, 3])) for _ in range(r.choice([1, 2]))] for _ in range(r.choice([2, 2, 3, 4]))]
        if r.random() < 0.3:
            threads.append("other")
    for op in ops:
        if op[0] == "fit" and r.random() < 0.5:
            # Other labels of the same classes in the same order, of either sign.
            op[1]["relabel"] = sorted(r.sample(r.choice([range(-6, 6), range(-60, 1000), range(-(10**9), 10**9)]), op[1]["classes"]))
            op[1]["relabel"] = [op[1]["relabel"], r.choice(["int64", "int64", "int32"]), r.randrange(1 << 30)]
    return dict(kind=k.name, cfg=c, ops=ops, seed=r.randrange(1 << 30), threads=threads, sched=dict(seed=r.randrange(1 << 40), gap=r.choice([2, 3, 8, 30])))


def classes(data):
    return len(set(zoo.labelled(data)[1].tolist()))


def valid(p, n, m, where):
    check(isinstance(p, numpy.ndarray) and p.shape == (n, m), "ranking", lambda: f"{where}: predictions of shape {numpy.shape(p)} for {n} rows and {m} classes")
    check(all(sorted(v.tolist()) == list(range(m)) for v in p), "ranking", lambda: f"{where}: {p.tolist()} does not rank each of {m} classes once")


def same(inst, q, a, b):
    """Whether rows are ranked the same, apart from classes which are as likely as rounding can tell:
    for those, the least change of a row gives either order."""
    a, b = numpy.asarray(a), numpy.asarray(b)
    if a.shape != b.shape:
        return False
    for row, u, v in zip(q, a, b):
        if numpy.array_equal(u, v):
            continue
        if not numpy.issubdtype(u.dtype, numpy.integer) or sorted(u.tolist()) != sorted(v.tolist()):
            return False
        at, bt = numpy.argsort(u), numpy.argsort(v)
        pairs = [(i, j) for i in range(len(u)) for j in range(i) if (at[i] < at[j]) != (bt[i] < bt[j])]
        noise, row = numpy.random.RandomState(7), numpy.asarray(row, float)
        ranks = [numpy.argsort(inst.predict(numpy.array([row + noise.uniform(-1e-9, 1e-9, len(row)) * (abs(row) + 1e-3)]))[0]) for _ in range(40)]
        if any(len({bool(t[i] < t[j]) for t in ranks}) < 2 for i, j in pairs):
            return False
    return True


def query(spec, dim):
    return zoo.argument(spec, zoo.rows(dict(spec, dim=dim)))


def execute(plan, ctx):
    k, c = zoo.kind(plan["kind"]), plan["cfg"]
    ctx.stat(k.name)
    threaded = bool(plan["threads"])
    if threaded:
        s = sched.Scheduler(plan["sched"], ctx, sched.tracer((runtime.REPO + "/diamondback/models/",), ()))
        sched.activate(s)
    try:
        lib = runtime.Process(substitute={"threading": sched.threading_proxy()}) if threaded else runtime.Process()
        play(plan, ctx, k, c, lib, s if threaded else None)
    finally:
        if threaded:
            sched.activate(None)


def play(plan, ctx, k, c, lib, s):
    inst, other = k.make(lib, c), k.make(lib, c)
    known = {n: getattr(inst, n) for n in k.settings}
    numpy.random.seed(plan["seed"] % (1 << 32))
    twin, renamed, shuffled, data, trail = None, None, None, None, []
    for j, op in enumerate(plan["ops"]):
        where = f"{k.name} {c} operation {j} {op[0]} after {trail[-6:]}"
        ctx.stat(op[0])
        if op[0] in ("fit", "other"):
            x, y = zoo.labelled(op[1])
            if op[0] == "other":
                other.fit(x, y)
                other.predict(x[:2])
                trail.append("other")
            else:
                if data is not None:
                    ctx.stat("refit")
                    if classes(data) != classes(op[1]):
                        ctx.stat("classes-change")
                    if data["dim"] != op[1]["dim"]:
                        ctx.stat("dimension-change")
                data = op[1]
                if classes(data) == 1:
                    ctx.stat("one-class")
                before = numpy.random.get_state()
                inst.fit(x, y)
                after = numpy.random.get_state()
                numpy.random.set_state(before)

                def new():
                    return getattr(lib, k.cls)(**({"order": c["order"]} if "order" in c else {}), **known)

                twin = new()
                twin.fit(*zoo.labelled(op[1]))
                renamed = shuffled = None
                if op[1].get("relabel"):
                    names, dtype, seed = op[1]["relabel"]
                    x, y = zoo.labelled(op[1])
                    old = sorted(set(y.tolist()))
                    if len(names) < len(old) or names != sorted(set(names)):
                        raise InvalidPlan("labels")
                    y = numpy.array([names[old.index(v)] for v in y.tolist()], dtype)
                    numpy.random.set_state(before)
                    renamed = new()
                    renamed.fit(x, y)
                    if k.name == "gaussian":
                        p = numpy.random.RandomState(seed).permutation(len(x))
                        shuffled = new()
                        shuffled.fit(x[p], y[p])
                numpy.random.set_state(after)
                trail.append(["fit", op[1]["dim"], classes(data)])
        elif op[0] == "set":
            setattr(inst, op[1], op[2])
            known[op[1]] = op[2]
            trail.append(op[1])
        elif op[0] == "random":
            numpy.random.random(op[1])
            trail.append("random")
        elif op[0] == "fail":
            try:
                k.do_bad(inst, op[1])
            except Exception:
                pass
            else:
                if op[1][0] == "fit" or op[1][1] != "wide":
                    check(False, "accepted", f"{where}: {op[1]} was accepted")
            ctx.fault("refused")
            trail.append("fail")
        elif op[0] == "restart":
            with lib:
                inst = pickle.loads(pickle.dumps(inst)) if op[1] == "pickle" else lib.Serial.decode(lib.Serial.encode(inst, compress=op[1] == "compress"))
            ctx.fault("restart")
            trail.append("restart")
        elif op[0] == "predict":
            if twin is None:
                continue
            q, m = query(op[1], data["dim"]), classes(data)
            got = inst.predict(q)
            valid(got, len(q), m, where)
            got = numpy.array(got)
            want = twin.predict(query(op[1], data["dim"]))
            check(numpy.array_equal(got, want), "prediction", lambda: f"{where}: predictions {got.tolist()} instead of {want.tolist()} of a new instance after the last fit")
            ctx.values("p", got)
            if renamed is not None:
                want = renamed.predict(query(op[1], data["dim"]))
                check(numpy.array_equal(got, want), "relabelled", lambda: f"{where}: predictions {got.tolist()}, and {want.tolist()} where the classes are labelled {data['relabel'][0]} in the same order")
                ctx.stat("relabelled")
            if shuffled is not None:
                want = shuffled.predict(query(op[1], data["dim"]))
                check(same(inst, q, got, want), "reordered", lambda: f"{where}: predictions {got.tolist()}, and {want.tolist()} after a fit of the same rows in another order")
                ctx.stat("reordered")
            r = random.Random(op[1]["seed"])
            if len(q) > 30:
                ctx.stat("large-batch")
            for i in range(len(q)):
                alone = inst.predict(numpy.array(q[i : i + 1]))
                check(same(inst, q[i : i + 1], alone, got[i : i + 1]), "alone", lambda: f"{where}: row {i} of a batch of {len(q)} is ranked {got[i].tolist()}, and {alone.tolist()} alone")
            ctx.stat("alone")
            order = [r.randrange(len(q)) for _ in range(len(q) + 2)]
            mixed = inst.predict(numpy.array([q[i] for i in order]))
            check(same(inst, q[order], mixed, got[order]), "permuted", lambda: f"{where}: rows {order} are ranked {mixed.tolist()} instead of {got[order].tolist()}")
            ctx.stat("permuted")
            again = numpy.array(q)
            inst.predict(again)
            again[...] = again[::-1].copy()
            turned = inst.predict(again)
            check(same(inst, again, turned, got[::-1]), "refilled", lambda: f"{where}: an array predicted before and refilled is ranked {turned.tolist()} instead of {got[::-1].tolist()}")
            ctx.stat("refilled")
            at = 0
            for n in kit.draw_split(r, len(q)):
                part = inst.predict(numpy.array(q[at : at + n]))
                check(same(inst, q[at : at + n], part, got[at : at + n]), "divided", lambda: f"{where}: rows {at} to {at + n - 1} are ranked {part.tolist()} instead of {got[at : at + n].tolist()}")
                at += n
            ctx.stat("divided")
            trail.append(["predict", len(q)])
        else:
            raise InvalidPlan(op)
        ctx.steps += 1
    if plan["threads"] and twin is not None:
        ctx.stat("threads")
        m, results = classes(data), {}
        other.fit(*zoo.labelled(data))

        def body(t, work):
            if work == "other":
                other.predict(query(dict(n=2, seed=1), data["dim"]))
                return
            for i, spec in enumerate(work):
                results[t, i] = numpy.array(inst.predict(query(spec, data["dim"])))

        for t, work in enumerate(plan["threads"]):
            s.spawn(f"t{t}", lambda t=t, work=work: body(t, work))
        s.run()
        if s.preemptions:
            ctx.fault("preemption", s.preemptions)
        for t in s.tasks:
            if t.error:
                raise t.error
        check(s.deadlock is None, "no-progress", f"threads wait for ever: {s.deadlock}")
        for (t, i), got in sorted(results.items()):
            want = twin.predict(query(plan["threads"][t][i], data["dim"]))
            check(numpy.array_equal(got, want), "concurrent", lambda: f"{k.name} {c}: thread {t} of {len(plan['threads'])} which predict at the same time gets {got.tolist()} instead of {want.tolist()}")
            ctx.values("t", got)
    ctx.state(k.name, c.get("order"), trail, len(plan["threads"]), min(20, s.preemptions) if s else 0)
