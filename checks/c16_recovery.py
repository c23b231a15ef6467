"""C16: components recover from bad samples, and adapt at the specified rate."""

import math

import numpy

from sim import kit, runtime, zoo
from sim.kit import InvalidPlan, check

ID = "C16"
RUNS = dict(quick=40000, thorough=2500000)
SHRINK_LISTS = ("pieces", "faults", "segments")
FINITE = ["fir", "derivative", "rank", "polyphase", "goertzel"]
RULE = ("Finite memory: a run feeds one filter of drawn configuration a clean signal, another the same signal with 1 to 3 disturbances (not-a-number, infinities, spikes up to 1e300, zeroed, stuck or garbage samples) of 1 to 20 samples at drawn positions, both divided into drawn pieces; outputs must agree before a disturbance and once the memory (or block) has passed, also after the next disturbance. "
        "Adaptive: a complex filter tracks a tone through jumps of amplitude, phase or frequency, spikes, zeroed samples and garbage; in every steady stretch each error must be (1 - rate) times the preceding one and the reported value must have reached the tone once that predicts it; distinct by digest of the outputs.")
STATE = "distinct (filter, memory, kinds of disturbance, pieces, recovered samples)"
REAL = ["fir, derivative, rank, polyphase, goertzel, complex bandpass and complex frequency filters"]
STUB = ["signal source (faults injected)"]
ASSUMPTIONS = ["agreement to 1e-9 of the clean signal's largest value", "adaptive filters are disturbed by finite samples; not-a-number would remain in their coefficient", "steady means constant frequency, and for the bandpass filter constant amplitude at its own frequency"]
FAULTS = ("nan", "inf", "minus-inf", "spike", "huge", "zeroed", "stuck", "garbage")
PROBES = tuple(FINITE) + FAULTS + ("bandpass", "frequency", "jump", "recovered", "converged")


def prepare():
    runtime.fast_design()
    zoo.quiet()


def generate(r, tier):
    if r.random() < 0.35:
        kind = r.choice(["bandpass", "frequency"])
        segments = []
        for i in range(r.choice([1, 2, 3, 5])):
            segments.append(dict(n=r.choice([2, 5, 20, 80, 200]), amplitude=r.choice([1.0, 0.01, 5.0, 300.0, round(r.uniform(0.1, 3), 3)]), phase=round(r.uniform(-1, 1), 3), f=round(r.uniform(-0.95, 0.95), 3), vary=r.random() < 0.3, faults=[[r.choice(["spike", "zeroed", "garbage", "stuck"]), r.random(), r.choice([1, 2, 5])] for _ in range(r.choice([0, 0, 1, 2]))]))
        return dict(kind=kind, frequency=r.choice([0.0, 0.5, -0.25, round(r.uniform(-0.95, 0.95), 3)]), rate=r.choice([1.0, 0.5, 0.2, 0.1, 0.05, 0.9, round(r.uniform(0.01, 1.0), 3)]), segments=segments, split=r.randrange(1 << 30), seed=r.randrange(1 << 30))
    k = zoo.kind(r.choice(FINITE))
    c = k.cfg(r)
    if k.name == "fir":
        c.pop("s", None)
    if k.name == "polyphase" and c["rate"] > 8:
        c["rate"] = 3.7
    n = r.choice([20, 60, 150])
    x = k.draw(r, c, n)
    x["form"] = "array"
    if k.name == "rank":
        x["kind"] = r.choice(["noise", "uniform"])
    return dict(kind=k.name, cfg=c, x=x, faults=[[r.choice(FAULTS), r.random(), r.choice([1, 1, 2, 5, 20])] for _ in range(r.choice([1, 1, 2, 3]))], split=r.randrange(1 << 30), seed=r.randrange(1 << 30), marks=r.random() < 0.3)


def spoil(x, i, m, how, g):
    """Damages m samples from i on."""
    v = x[i : i + m]
    if how == "nan":
        v[...] = math.nan
    elif how == "inf":
        v[...] = math.inf
    elif how == "minus-inf":
        v[...] = -math.inf
    elif how == "spike":
        v[...] = v * 1e6 + 1e6
    elif how == "huge":
        v[...] = 1e300
    elif how == "zeroed":
        v[...] = 0.0
    elif how == "stuck":
        v[...] = x[i - 1] if i else 0.5
    elif how == "garbage":
        v[...] = (g.standard_normal(len(v)) + (1j * g.standard_normal(len(v)) if numpy.iscomplexobj(x) else 0)) * 100.0
    else:
        raise InvalidPlan(how)


def pieces(n, seed, marks=()):
    """A division of n samples, with boundaries at the marks."""
    import random

    r, out, at = random.Random(seed), [], 0
    marks = sorted({m for m in marks if 0 < m < n} | {n})
    for m in marks:
        out += kit.draw_split(r, m - at)
        at = m
    return out


def execute(plan, ctx):
    ctx.stat(plan["kind"])
    (adaptive if "segments" in plan else finite)(plan, ctx)


def finite(plan, ctx):
    k, c = zoo.kind(plan["kind"]), plan["cfg"]
    lib = runtime.Process()
    clean = zoo.piece(plan["x"])[1]
    n, g = len(clean), numpy.random.Generator(numpy.random.PCG64(plan["seed"]))
    bad, hit = numpy.array(clean), numpy.zeros(n, bool)
    for how, a, m in plan["faults"]:
        i = min(n - 1, int(a * n))
        spoil(bad, i, m, how, g)
        hit[i : i + m] = True
        ctx.fault(how)
    # influenced inputs
    dirty = numpy.zeros(n, bool)
    if k.name == "goertzel":
        w = len(c["b"])
        for j in range(0, n, w):
            dirty[j : j + w] = hit[j : j + w].any()
    else:
        w = k.memory_of(c)
        for i in numpy.nonzero(hit)[0]:
            dirty[i : i + w] = True
    marks = [i for i in range(1, n) if dirty[i] != dirty[i - 1]] if plan.get("marks", True) else []
    a, b = k.make(lib, c), k.make(lib, c)
    if k.name == "polyphase" and not marks:  # the inputs at which outputs appear
        p = k.make(lib, c)
        source = numpy.concatenate([numpy.full(len(k.run(p, clean[i : i + 1])[0]), i) for i in range(n)])
        first = 0
    scale, at, after, recovered = zoo.magnitude([clean]), 0, False, 0
    div = pieces(n, plan["split"], marks)
    for m in div:
        y = k.run(a, numpy.array(bad[at : at + m]))
        z = k.run(b, numpy.array(clean[at : at + m]))
        scale = max(scale, zoo.magnitude(z))
        where = f"{k.name} {c} samples {at} to {at + m - 1} of {n}, disturbed {plan['faults']} (samples {numpy.nonzero(hit)[0].tolist()[:10]}..), memory {w}"
        if k.name == "goertzel":  # blocks which end in this piece
            ends = [e for e in range(at, at + m) if (e + 1) % w == 0]
            keep = numpy.array([not dirty[e] for e in ends], bool)
            check(len(y[0]) == len(z[0]) == len(ends), "count", f"{where}: {len(y[0])} outputs instead of {len(ends)}")
            y, z = [y[0][keep]], [z[0][keep]]
            recovered += int(keep.sum())
        else:
            check(len(y[0]) == len(z[0]), "count", f"{where}: {len(y[0])} outputs instead of {len(z[0])}")
            if not marks:
                src = numpy.arange(at, at + m)
                if k.name == "polyphase":
                    src, first = source[first : first + len(z[0])], first + len(z[0])
                    check(len(src) == len(z[0]), "count", f"{where}: more outputs than for single samples")
                keep = ~dirty[src]
                recovered += int((keep & numpy.array([hit[:i].any() for i in src], bool)).sum())
                y, z = [y[0][keep]], [z[0][keep]]
            elif dirty[at]:
                after = True
                ctx.values(k.name, z[0])
                at += m
                continue
            recovered += len(z[0]) if after else 0
        zoo.compare(k, y, z, where, "not-recovered" if hit[:at].any() else "before", 1e-9, None, scale)
        ctx.values(k.name, y[0])
        at += m
    ctx.stat("recovered", recovered)
    ctx.steps += n
    ctx.state(k.name, w, sorted(f[0] for f in plan["faults"]), len(div), min(9, recovered))


def adaptive(plan, ctx):
    lib = runtime.Process()
    kind, rate, f0 = plan["kind"], plan["rate"], plan["frequency"]
    inst = (lib.ComplexBandpassFilter if kind == "bandpass" else lib.ComplexFrequencyFilter)(f0, rate)
    g = numpy.random.Generator(numpy.random.PCG64(plan["seed"]))
    d, steady, truth, t = [], [], [], 0
    for i, s in enumerate(plan["segments"]):
        f = f0 if kind == "bandpass" else s["f"]
        n = numpy.arange(t, t + s["n"])
        x = s["amplitude"] * numpy.exp(1j * math.pi * (f * n + s["phase"]))
        if kind == "frequency" and s["vary"]:  # only the angle matters
            x = x * (1.0 + 0.5 * g.random(len(x)))
        st = numpy.arange(s["n"])
        ok = numpy.ones(s["n"], bool)
        if i:
            ctx.fault("jump")
        for how, a, m in s["faults"]:
            j = min(len(x) - 1, int(a * len(x)))
            spoil(x, j, m, how, g)
            ok[j : j + m] = False
            ctx.fault(how)
        d.append(x)
        steady.append(ok)
        truth += [f] * len(x)
        # a segment begins with a jump
        steady[-1][0] = False
        t += s["n"]
    if not d:
        return
    d, steady, truth = numpy.concatenate(d), numpy.concatenate(steady), numpy.array(truth)
    y, e = [], []
    at, div = 0, pieces(len(d), plan["split"])
    for m in div:
        out = inst.filter(numpy.array(d[at : at + m]))
        check(len(out) == 3 and all(len(v) == m for v in out), "count", f"{kind}: {[len(v) for v in out]} outputs for {m} samples")
        y.append(out[0])
        e.append(out[1])
        at += m
    y, e = numpy.concatenate(y), numpy.concatenate(e)
    ctx.values(kind, e)
    where = f"{kind} filter of frequency {f0} and rate {rate}"
    top = 0.0
    start = None
    for i in range(1, len(d)):
        top = max(top, abs(d[i - 1]) if kind == "bandpass" else 1.0, abs(e[i - 1]))
        need = 2 if kind == "frequency" else 1
        if all(steady[max(0, i - j)] for j in range(need + 1)) and i > need and (kind == "bandpass" or (truth[i] == truth[i - 1] == truth[i - 2])):
            start = i - 1 if start is None else start
            want = (1.0 - rate) * abs(e[i - 1])
            check(abs(abs(e[i]) - want) <= 1e-9 * top, "rate", lambda: f"{where}: the error went from {abs(e[i - 1])!r} to {abs(e[i])!r} at sample {i} of a steady tone instead of to {want!r}")
            predicted = abs(e[start]) * (1.0 - rate) ** (i - start)
            if predicted < 1e-7 * (abs(d[i]) if kind == "bandpass" else 1.0):
                ctx.stat("converged")
                if kind == "bandpass":
                    check(abs(y[i] - d[i]) <= 1e-6 * abs(d[i]) + 1e-9 * top, "tracking", lambda: f"{where}: output {y[i]} for {d[i]} at sample {i}, {i - start} samples into a steady tone")
                else:
                    check(abs(numpy.exp(1j * math.pi * y[i]) - numpy.exp(1j * math.pi * truth[i])) <= 1e-6, "tracking", lambda: f"{where}: frequency {y[i]} instead of {truth[i]} at sample {i}, {i - start} samples into a steady tone")
        else:
            start = None
    if start is not None:
        ctx.stat("recovered")
    ctx.steps += len(d)
    ctx.state(kind, rate, len(plan["segments"]), sorted({f[0] for s in plan["segments"] for f in s["faults"]}), min(20, len(div)))
