"""C17: sample rate conversion neither loses samples nor drifts."""

import math
import random

import numpy

from sim import kit, runtime, zoo
from sim.kit import InvalidPlan, check

ID = "C17"
RUNS = dict(quick=10000, thorough=1000000)
NEEDS_FAULTS = False
SHRINK_LISTS = ("segments",)
DELAY, MEMORY, BANK = 7.498, 15, 256
RULE = ("A run converts one stream (a constant, a slow sinusoid, or noise) with up to 5 segments of different rate between 0.01 and 256, resets and checkpoints at their boundaries, in pieces from one sample to the whole; "
        "the number of outputs per segment, the value of a constant, the position of every output of a sinusoid, the influence of an altered sample and the agreement with the undivided stream are judged; distinct by digest of the outputs.")
STATE = "distinct (signal, rates, resets, restarts, number of pieces)"
REAL = ["diamondback.filters.PolyphaseRateFilter", "numpy, scipy"]
STUB = ["none"]
ASSUMPTIONS = ["the delay is half the length of the bank, 7.5 samples", "a position within 0.02 samples, an amplitude within 0.4 percent (a bank of 256 phases, passband to half the band)", "an influence is only required for rates of at least one half: at lower ones the main lobe of the filter does not reach from one output to the next"]
PROBES = ("const", "tone", "noise", "impulse", "rate-change", "reset", "restart", "one-sample-pieces", "integer-rate", "decimation", "interpolation", "long", "silent", "marathon")


def prepare():
    runtime.fast_design()
    zoo.quiet()


def draw_rate(r):
    return r.choice([1.0, 2.0, 0.5, 1.5, 3.0, 0.25, 4 / 3, 2 / 3, 0.1, 7.3, math.pi, 1 / math.pi, 1, 2, 256, 0.0137, 0.99, 1.01, round(r.uniform(0.1, 2), 3), round(r.uniform(0.1, 2), 3), round(r.uniform(0.01, 1), 4), round(r.uniform(1, 6), 3), round(r.uniform(1, 250), 2), round(r.uniform(0.1, 20), 2)])


def generate(r, tier):
    segments, before = [], None
    for i in range(r.choice([1, 1, 2, 3, 5])):
        s = dict(rate=draw_rate(r))
        if before is not None and abs(s["rate"] - before) < 1e-3 * before:
            s["rate"] = before
        if i and r.random() < 0.25:
            s["rate"] = before
        before = s["rate"]
        if r.random() < 0.02:
            s["rate"] = before = 0.0
        n = r.choice([1, 2, 7, 30, 30, 80, 80, 200])
        if r.random() < 0.05:
            n = 1500
        s["n"] = max(1, min(n, int(4000 / max(1.0, s["rate"]))))
        if r.random() < 0.2:
            s["reset"] = True
        if r.random() < 0.15:
            s["restart"] = True
        segments.append(s)
    if r.random() < 0.006:  # a long stream, for slow drift
        segments = [dict(rate=r.choice([1.01, 0.99, 0.7, 1 / 3, round(r.uniform(0.1, 1.5), 3), math.pi / 4, 1.0]), n=40000)]
        return dict(kind="tone", level=1.0, f=round(r.uniform(0.05, 0.45), 4), phase=round(r.uniform(-1, 1), 3), form="array", split=r.randrange(1 << 30), ones=False, marathon=True, seed=0, impulse=0.5, segments=segments)
    kind = r.choice(["const", "tone", "tone", "noise"])
    return dict(kind=kind, level=r.choice([1.0, -2.5, 1e-3, 4e4, 0.3]), f=r.choice([0.01, 0.05, 0.2, 0.4, round(r.uniform(0.001, 0.45), 4)]), phase=round(r.uniform(-1, 1), 3), form=r.choice(["array", "array", "list", "single", "view"]),
                split=r.randrange(1 << 30), ones=r.random() < 0.1, seed=r.randrange(1 << 30), impulse=r.random(), segments=segments)


def convert(inst, x, form):
    if form == "list":
        x = [float(v) for v in x]
    elif form == "single":
        x = numpy.array(x, numpy.float32)
    elif form == "view":
        y = numpy.zeros(2 * len(x))
        y[::2] = x
        x = y[::2]
    y = inst.filter(x)
    check(isinstance(y, numpy.ndarray) and y.ndim == 1, "output", f"output {type(y)}")
    return numpy.array(y)


def execute(plan, ctx):
    lib = runtime.Process()
    segments = plan["segments"]
    if not segments:
        return
    n = sum(s["n"] for s in segments)
    t = numpy.arange(n)
    level, kind, form = plan["level"], plan["kind"], plan["form"]
    if kind == "const":
        x = numpy.ones(n) * level
    elif kind == "tone":
        x = level * numpy.cos(math.pi * (plan["f"] * t + plan["phase"]))
    elif kind == "noise":
        x = level * numpy.random.Generator(numpy.random.PCG64(plan["seed"])).standard_normal(n)
    else:
        raise InvalidPlan(kind)
    if form == "single":
        x = numpy.array(x, numpy.float32).astype(float)
    ctx.stat(kind)
    if n > 1000:
        ctx.stat("long")
    altered = numpy.array(x)
    at = min(n - 1, int(plan["impulse"] * n))
    altered[at] += level
    part = lib.PolyphaseRateFilter(segments[0]["rate"])
    whole, other = (lib.PolyphaseRateFilter(segments[0]["rate"]) for _ in range(2))
    r = random.Random(plan["split"])
    begin, gap, clean, rate, phase, total, seen, influence, parts = 0, 0, None, segments[0]["rate"], 0, 0, 0, 0.0, 0
    history = []
    for i, s in enumerate(segments):
        if s["rate"] != rate:
            ctx.stat("rate-change")
            for v in (part, whole, other):
                v.rate = s["rate"]
            rate, total, seen, phase = s["rate"], 0, 0, begin
            check(part.rate == rate, "rate", f"the rate reads {part.rate} after an assignment of {rate}")
        if s.get("restart"):
            ctx.stat("restart")
            with lib:
                part = lib.Serial.decode(lib.Serial.encode(part))
        if s.get("reset"):
            ctx.stat("reset")
            for v in (part, whole, other):
                v.reset(float(x[begin]))
            clean = begin
        if rate != int(rate) or rate < 1:
            ctx.stat("decimation" if rate < 1 else "interpolation")
        else:
            ctx.stat("integer-rate")
        span = x[begin : begin + s["n"]]
        y, j, div = [], 0, [1] * s["n"] if plan["ones"] else [997] * (s["n"] // 997) + [s["n"] % 997 or 1] if plan.get("marathon") else kit.draw_split(r, s["n"])
        parts += len(div)
        if plan["ones"]:
            ctx.stat("one-sample-pieces")
        for m in div:
            y.append(convert(part, span[j : j + m], form))
            j += m
        y = numpy.concatenate(y)
        if plan.get("marathon"):
            ctx.stat("marathon")
            span = span[:j]
            s = dict(s, n=j)
        z = y if plan.get("marathon") else convert(whole, span, "array")
        w = z if plan.get("marathon") else convert(other, altered[begin : begin + s["n"]], "array")
        history.append([s["n"], rate])
        where = f"{kind} in {len(div)} pieces, segments [samples, rate] {history[-4:]}, segment {i} from sample {begin}"
        total, seen = total + len(y), seen + s["n"]
        check(abs(total - seen * rate) <= 1.0 + 1e-6, "count", f"{where}: {total} samples for {seen} at rate {rate}")
        if not rate:
            ctx.stat("silent")
            check(not len(y) and not len(z), "count", f"{where}: output at rate zero")
            begin += s["n"]
            gap = begin
            continue
        # the position of each output, in samples of the stream
        first = total - len(y)
        pos = (first + numpy.arange(len(y))) / rate
        fraction = pos % 1.0 * BANK
        doubt = (abs(fraction % 1.0 - 0.5) < 1e-5) | (abs(fraction - numpy.round(fraction)) < 1e-5) & ((fraction < 1e-4) | (fraction > BANK - 1e-4))
        check(abs(len(y) - len(z)) <= (1 if doubt.any() else 0), "split", f"{where}: {len(y)} samples in pieces, {len(z)} at once")
        m = min(len(y), len(z))
        top = max(abs(x[: begin + s["n"]]).max(), 1e-300)
        bad = (abs(y[:m] - z[:m]) > 1e-9 * top) & ~doubt[:m]
        check(not bad.any(), "split", lambda: f"{where}: output {int(numpy.argmax(bad))} is {y[:m][bad][0]!r} in pieces, {z[:m][bad][0]!r} at once")
        check(len(w) == len(z), "count", f"{where}: {len(w)} samples instead of {len(z)} for an altered sample")
        influence = max(influence, float(abs(w - z).max()) if len(w) else 0.0)
        # the last sample an output depends on
        last = phase + numpy.floor(pos + 1e-9)
        known = last - (MEMORY - 1) >= max(gap, clean or 0)
        if kind == "const":
            ok = known if clean is None else numpy.ones(len(y), bool)
            bad = (abs(y - level) > 1e-6 * abs(level)) & ok
            check(not bad.any(), "constant", lambda: f"{where}: {y[bad][0]!r} for a constant {level}")
        elif kind == "tone":
            want = level * numpy.cos(math.pi * (plan["f"] * (phase + pos - DELAY) + plan["phase"]))
            bad = (abs(y - want) > abs(level) * (0.02 * math.pi * plan["f"] + 0.004)) & known
            check(not bad.any(), "position", lambda: f"{where}: output {first + int(numpy.argmax(bad))} of this rate is {y[bad][0]!r}, where a sinusoid of frequency {plan['f']} is {want[bad][0]!r}")
        ctx.values("y", y)
        begin += s["n"]
    # an altered sample in good time before the end of the stream, and not overtaken by a reset
    edge, covered = 0, False
    for s in segments:
        if edge <= at < edge + s["n"]:
            covered = s["rate"] >= 0.5 and at + MEMORY + 1.0 / s["rate"] <= edge + s["n"]
        edge += s["n"]
    if covered and not plan.get("marathon"):
        ctx.stat("impulse")
        check(influence > 1e-4 * abs(level), "lost", f"{kind}, segments {history[-4:]}: sample {at} has no influence on any output (at most {influence!r})")
    ctx.steps += n
    ctx.state(kind, history, sum(bool(s.get("reset")) for s in segments), sum(bool(s.get("restart")) for s in segments), min(50, parts))
