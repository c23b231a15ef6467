"""C13: streaming filters follow their difference equation however a signal is split."""

import numpy

from sim import kit, runtime, zoo
from sim.kit import check

ID = "C13"
RUNS = dict(quick=36000, thorough=1000000)
NEEDS_FAULTS = False
SHRINK_LISTS = ("segments", "pieces")
RULE = ("A run draws one filter configuration (explicit coefficients and initial states, designs, tables), 1 to 4 segments separated by resets, and each segment as 1 to 12 pieces of drawn kinds, lengths, element types and memory layouts (arrays, lists, views, single precision, integers); "
        "the filter is fed the pieces, another instance the segments whole; distinct by digest of all outputs.")
STATE = "distinct (filter, number of pieces, element types, resets, real or complex, length)"
REAL = ["diamondback.filters (all streaming filters)", "numpy, scipy"]
STUB = ["none; the reference models are written from the documentation"]
ASSUMPTIONS = ["agreement to 1e-8 of the largest value so far (1e-9 for the complex exponential)", "stable recursions", "adaptive filters with complex signals; a real signal is made analytic piece by piece and so depends on the division", "reset of recursive filters where the documented state exists", "the integral limit of the controller is judged by C19"]
PROBES = tuple(k.name for k in zoo.STREAMS) + ("reset", "lists", "integers", "single", "views", "complex", "designed", "initial-state", "one-sample-pieces", "long")


def prepare():
    runtime.fast_design()


def generate(r, tier):
    k = r.choice(zoo.STREAMS)
    c = k.cfg(r)
    segments = []
    for i in range(r.choice([1, 1, 2, 3, 4])):
        s = dict(pieces=[])
        if i and k.resets and (k.name != "iir" or k.may_reset(c)):
            s["reset"] = k.draw_reset(r, c)
        ones = r.random() < 0.2
        for _ in range(r.choice([1, 2, 3, 5, 12])):
            s["pieces"].append(k.draw(r, c, 1 if ones else r.choice([1, 1, 2, 3, 5, 8, 13, 40])))
        if r.random() < 0.04:
            s["pieces"].insert(r.randrange(len(s["pieces"]) + 1), k.draw(r, c, r.choice([100, 200, 300, 600, 1100, 2100] if r.random() < 0.9 else [4500, 9000])))
        if "reset" in s and not isinstance(s["reset"], list) and r.random() < 0.3 and not k.comp(c) == "complex":
            s["pieces"].insert(0, dict(kind="const", n=r.choice([1, 5, 20]), scale=s["reset"], form="array"))
        segments.append(s)
    return dict(kind=k.name, cfg=c, segments=segments)


def execute(plan, ctx):
    k, c = zoo.kind(plan["kind"]), plan["cfg"]
    lib = runtime.Process()
    split, whole, ref = k.make(lib, c), k.make(lib, c), k.ref(c, lib)
    scale, count = 0.0, 0
    ctx.stat(k.name)
    for i, s in enumerate(plan["segments"]):
        if "reset" in s:
            v = zoo.scalar(s["reset"])
            ctx.stat("reset")
            split.reset(v)
            whole.reset(v)
            ref.reset(v)
            scale = max(scale, abs(v))
        if not s["pieces"]:
            continue
        got, want, xs, doubt = [], [], [], []
        for p in s["pieces"]:
            x, values = zoo.piece(p)
            ctx.stat({"list": "lists", "ints": "integers", "intarray": "integers", "single": "single", "view": "views", "reverse": "views"}.get(p.get("form"), "arrays"))
            if p.get("complex"):
                ctx.stat("complex")
            if len(values) >= 100:
                ctx.stat("long")
            if len(values) == 1:
                ctx.stat("one-sample-pieces")
            xs.append(values)
            y = k.run(split, x)
            got.append(y)
            want.append(ref.step(values))
            doubt += getattr(ref, "doubt", [])
            ctx.values(k.name, y[0])
            scale = max(scale, zoo.magnitude([values]), zoo.magnitude(want[-1]))
            # lengths per piece
            zoo.compare(k, y, want[-1], f"{k.name} {c} piece {len(xs)} of segment {i} (form {p.get('form')}, {len(values)} samples)", scale=scale, doubt=getattr(ref, "doubt", None))
        x = numpy.concatenate(xs)
        one = k.run(whole, x)
        zoo.compare(k, one, zoo.joined(want), f"{k.name} {c} segment {i} of {len(x)} samples at once", scale=scale, doubt=doubt or None)
        zoo.compare(k, zoo.joined(got), one, f"{k.name} {c} segment {i}: {len(xs)} pieces against the whole", "split", scale=scale, doubt=doubt or None)
        count += len(x)
    if "design" in c:
        ctx.stat("designed")
    if "s" in c:
        ctx.stat("initial-state")
    ctx.steps += count
    ctx.state(k.name, min(20, sum(len(s["pieces"]) for s in plan["segments"])), sorted({p.get("form") for s in plan["segments"] for p in s["pieces"]}), sum("reset" in s for s in plan["segments"]), k.comp(c), count.bit_length())

