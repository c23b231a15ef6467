"""C20: the diversity model keeps genuine samples and never gets less diverse."""

import pickle
import random

import numpy

from sim import kit, runtime, zoo
from sim.kit import InvalidPlan, check

ID = "C20"
RUNS = dict(quick=9000, thorough=900000)
SHRINK_LISTS = ("ops",)
EMPTY = float(numpy.finfo(float).max)
RULE = ("A run presents a history of samples to one model in drawn groups, between which calls are refused, the model is cleared, given a state, or restarted from an encoding, and to another model one sample at a time; "
        "after each sample retained rows must be presented ones in the right number, the least distance must follow the best exchange, and both models must agree after each group; distinct by digest of outputs and states.")
STATE = "distinct (style, order, dimension, sequence of operations, exchanges)"
REAL = ["diamondback.models.DiversityModel, diamondback.commons.Serial", "numpy"]
STUB = ["none"]
ASSUMPTIONS = ["distances agree to 1e-9 of the largest in the history", "orders of 1 and more (a single sample has no distance), finite samples", "before the model is full, and until the next sample after that, a reported diversity of zero is accepted"]
PROBES = ("full", "exchange", "kept", "clear", "refused", "restart", "assign", "duplicates", "large", "units", "Chebyshev", "Euclidean", "Geometric", "Manhattan")


def prepare():
    zoo.quiet()


def generate(r, tier):
    k = zoo.kind("diversity")
    c = k.cfg(r)
    ops = []
    for _ in range(r.choice([2, 4, 7, 12])):
        u = r.random()
        if u < 0.6:
            ops.append(["x", k.draw(r, c, r.choice([1, 1, 2, 3, 6, 12])), r.randrange(1 << 30)])
        elif u < 0.68:
            ops.append(["clear"])
        elif u < 0.8:
            ops.append(["bad", r.choice(k.bad(r, c))])
        elif u < 0.9:
            ops.append(["restart", r.choice(["encode", "compress", "pickle"])])
        else:
            ops.append(["assign", dict(k.draw(r, c, c["order"] + 1), n=c["order"] + 1)])
    u = r.random()
    if u < 0.03:  # a large model: nearly full, then more
        c["order"] = r.choice([12, 16, 23])
        ops = [["x", k.draw(r, c, r.choice([c["order"] - 2, c["order"], c["order"] + 2])), r.randrange(1 << 30)]] + [o for o in ops[:3] if o[0] in ("restart", "bad")]
    elif u < 0.06 and c["order"] < 6:  # a long history
        ops.append(["x", k.draw(r, c, r.choice([60, 120])), r.randrange(1 << 30)])
    ops.append(["x", k.draw(r, c, r.choice([6, 12])), r.randrange(1 << 30)])
    if r.random() < 0.2:  # small and large units
        unit = r.choice([1e-14, 1e-9, 1e-6, 1e6, 1e12])
        for op in ops:
            if op[0] in ("x", "assign"):
                op[1]["unit"] = unit
    return dict(cfg=c, ops=ops)


def distances(style, s):
    """All pairs, in an order of pairs."""
    d = abs(s[:, None, :] - s[None, :, :])
    d = dict(Chebyshev=lambda: d.max(2), Euclidean=lambda: (d**2).sum(2) ** 0.5, Geometric=lambda: d.prod(2) ** (1.0 / s.shape[1]), Manhattan=lambda: d.sum(2))[style]()
    return d


def least(style, s):
    d = distances(style, s)
    return float(d[numpy.triu_indices(len(s), 1)].min())


def retained(inst, order, where):
    s = numpy.array(inst.s)
    check(s.ndim == 2 and s.shape[0] == order + 1, "capacity", f"{where}: a state of shape {s.shape} where the order is {order}")
    if not s.shape[1]:
        return s[:0]
    used = ~(s >= EMPTY * 0.999).any(1)
    n = int(used.sum())
    check(used[:n].all(), "rows", f"{where}: unused rows between used ones {s.tolist()}")
    return s[:n]


def execute(plan, ctx):
    lib = runtime.Process()
    k, c = zoo.kind("diversity"), plan["cfg"]
    order, style = c["order"], c["style"].title()
    if order > 10:
        ctx.stat("large")
    if order < 1:
        raise InvalidPlan("order")
    ctx.stat(style)
    group, single = k.make(lib, c), k.make(lib, c)
    presented, count, have, exchanges, trail, top = set(), 0, None, 0, [], 0.0
    for j, op in enumerate(plan["ops"]):
        where = f"{c} operation {j} {op[0]} after {trail[-6:]}"
        if op[0] == "x":
            x = zoo.rows(op[1])
            if op[1].get("unit"):
                ctx.stat("units")
            y = group.fit(zoo.argument(op[1], x))
            check(numpy.shape(y) == (len(x),), "output", f"{where}: output of shape {numpy.shape(y)} for {len(x)} samples")
            top = max(top, zoo.magnitude([x]))
            tol = 1e-9 * top * 4 * x.shape[1]
            for i, v in enumerate(x):
                z = single.fit([v.tolist()] if op[1].get("form") == "list" else numpy.array(v[None]))
                ctx.values("y", z)
                presented.add(v.tobytes())
                count += 1
                s = retained(single, order, where)
                check(all(u.tobytes() in presented for u in s), "genuine", lambda: f"{where}: a retained row was never presented: {s.tolist()}")
                check(len(s) == min(count, order + 1), "number", f"{where}: {len(s)} rows retained after {count} samples")
                if len(s) == order + 1:
                    ctx.stat("full")
                    now = least(style, s)
                    if have is not None:
                        was = least(style, have)
                        check(now >= was - tol, "decrease", lambda: f"{where}: the least distance fell from {was!r} to {now!r} with sample {v.tolist()}: {have.tolist()} became {s.tolist()}")
                        best = was
                        for m in range(order + 1):
                            t = numpy.array(have)
                            t[m] = v
                            best = max(best, least(style, t))
                        check(now >= best - tol, "exchange", lambda: f"{where}: the least distance is {now!r} after sample {v.tolist()} where an exchange in {have.tolist()} gives {best!r}")
                        if not numpy.array_equal(s, have):
                            ctx.stat("exchange")
                            exchanges += 1
                            check(sum(not numpy.array_equal(a, b) for a, b in zip(s, have)) == 1, "exchange", lambda: f"{where}: more than one row changed: {have.tolist()} became {s.tolist()}")
                        else:
                            ctx.stat("kept")
                        check(abs(float(z[0]) - now) <= tol, "reported", lambda: f"{where}: a diversity of {float(z[0])!r} is reported where the least distance is {now!r}")
                    else:
                        check(abs(float(z[0]) - now) <= tol or not z[0], "reported", lambda: f"{where}: a diversity of {float(z[0])!r} is reported where the least distance is {now!r}")
                    if not now:
                        ctx.stat("duplicates")
                    have = s
                else:
                    check(not z[0], "reported", f"{where}: a diversity of {z[0]!r} before the state is full")
                check(abs(float(y[i]) - float(z[0])) <= tol, "grouping", lambda: f"{where}: sample {i} of a group of {len(x)} reports {y[i]!r} and {z[0]!r} alone")
            trail.append(["x", len(x), op[1]["how"]])
            ctx.steps += len(x)
        elif op[0] == "clear":
            ctx.stat("clear")
            group.clear()
            single.clear()
            presented, count, have = set(), 0, None
            check(not len(retained(group, order, where)), "clear", f"{where}: rows remain {group.s.tolist()}")
            trail.append("clear")
        elif op[0] == "bad":
            ctx.stat("refused")
            ctx.fault("refused")
            k.apply(group, op)
            trail.append(op[1])
        elif op[0] == "restart":
            ctx.stat("restart")
            ctx.fault("restart")
            with lib:
                group = pickle.loads(pickle.dumps(group)) if op[1] == "pickle" else lib.Serial.decode(lib.Serial.encode(group, compress=op[1] == "compress"))
            trail.append("restart")
        elif op[0] == "assign":
            ctx.stat("assign")
            s = zoo.rows(op[1])
            if len(s) != order + 1:
                raise InvalidPlan("assign")
            for inst in (group, single):
                inst.s = s.tolist() if op[1].get("form") == "list" else numpy.array(s)
            presented, count, have = {v.tobytes() for v in s}, order + 1, numpy.array(s)
            top = max(top, zoo.magnitude([s]))
            trail.append("assign")
        else:
            raise InvalidPlan(op)
        a, b = numpy.array(group.s), numpy.array(single.s)
        if a.shape != b.shape and not (len(retained(group, order, where)) or len(retained(single, order, where))):
            continue  # the dimension may be taken from a refused first call
        check(numpy.array_equal(a, b), "grouping", lambda: f"{where}: the states differ: {a.tolist()} in groups, {b.tolist()} one by one")
        ctx.values("s", a)
    ctx.state(c["style"], order, c["dim"], [t if isinstance(t, str) else t[0] for t in trail], min(9, exchanges))
