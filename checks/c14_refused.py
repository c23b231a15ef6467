"""C14: what a component refuses leaves no trace."""

from sim import kit, runtime, zoo
from sim.kit import InvalidPlan, check

ID = "C14"
RUNS = dict(quick=8000, thorough=1500000)
SHRINK_LISTS = ("ops", "parts")
RULE = ("A run operates 1 to 3 components of drawn kinds, interleaved, with 3 to 20 operations each; between them it injects calls and settings the components must refuse (empty signals, wrong dimensions, values out of range, complex values, bad settings, bad resets, unknown styles, bad orders, data or labels of the wrong shape, constructions which must fail); "
        "each refused call must raise, and all outputs and readable settings of every component are compared with those of a process without the refused calls; distinct by digest of the event log.")
STATE = "distinct (kind, refused call, operation before, operation after)"
REAL = ["all filters, models and transforms", "numpy, scipy, scikit-learn"]
STUB = ["none"]
ASSUMPTIONS = ["refused inputs are those the documentation or a check in the code excludes", "outputs agree to 1e-12 of the largest value so far"]
PROBES = tuple(k.name for k in zoo.KINDS.values()) + ("construct", "refused-first", "refused-last", "refused-twice")

# Constructions which must fail: class, arguments.
BUILD = [
    ("FirFilter", dict(style="Unknown", frequency=0.1, order=4)), ("FirFilter", dict(style="Hann", frequency=0.0, order=4)), ("FirFilter", dict(style="Hann", frequency=1.0, order=4)),
    ("FirFilter", dict(style="Hann", frequency=0.1, order=0)), ("FirFilter", dict(style="Hann", frequency=0.1, order=4, count=0)),
    ("IirFilter", dict(style="Unknown", frequency=0.1, order=4)), ("IirFilter", dict(style="Butterworth", frequency=0.0, order=1)), ("IirFilter", dict(style="Butterworth", frequency=0.1, order=0)),
    ("IirFilter", dict(style="Bessel", frequency=1.2, order=2)), ("IirFilter", dict(a=[1.0, 0.5], b=[1.0, 0.0])), ("IirFilter", dict(style="Butterworth", frequency=0.1, order=2, count=0)),
    ("DerivativeFilter", dict(derivative=4, order=1)), ("DerivativeFilter", dict(derivative=1, order=3)), ("IntegralFilter", dict(order=5)), ("IntegralFilter", dict(order=-1)),
    ("GoertzelFilter", dict(b=[], frequency=0.1)), ("GoertzelFilter", dict(b=[0.0, 0.0], frequency=0.1)), ("GoertzelFilter", dict(b=[1.0], frequency=1.1)), ("GoertzelFilter", dict(b=[1.0], frequency=-1.1)),
    ("PidFilter", dict(b=[1.0, 2.0])), ("PidFilter", dict(b=[1.0, 2.0, 3.0, 4.0])), ("RankFilter", dict(index=3, order=2)), ("RankFilter", dict(index=-1, order=2)),
    ("ComplexExponentialFilter", dict(phase=1.5)), ("ComplexExponentialFilter", dict(phase=-1.01)), ("ComplexBandpassFilter", dict(frequency=1.5, rate=0.1)), ("ComplexBandpassFilter", dict(frequency=0.5, rate=1.1)),
    ("ComplexFrequencyFilter", dict(frequency=-1.5, rate=0.1)), ("ComplexFrequencyFilter", dict(frequency=0.5, rate=-0.1)), ("PolyphaseRateFilter", dict(rate=-0.1)), ("PolyphaseRateFilter", dict(rate=257.0)),
    ("PolynomialRateFilter", dict(rate=-1.0)), ("PolynomialRateFilter", dict(rate=1.0, order=0)), ("WindowFilter", dict(style="Unknown", order=3)), ("WindowFilter", dict(style="Hann", order=-1)),
    ("WaveletTransform", dict(style="Unknown", order=1)), ("WaveletTransform", dict(style="Haar", order=2)), ("DiversityModel", dict(style="Unknown", order=3)), ("DiversityModel", dict(style="Euclidean", order=-1)),
    ("GaussianModel", dict(regularize=-0.1)), ("GaussianMixtureModel", dict(order=0)), ("GaussianMixtureModel", dict(index=0)), ("GaussianMixtureModel", dict(regularize=-1.0)),
]


def prepare():
    runtime.fast_design()
    zoo.quiet()


def generate(r, tier):
    parts = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.choice(zoo.STREAMS * 2 + zoo.MODELS + zoo.STATICS)
        c = k.cfg(r)
        ops = []
        bads = k.bad(r, c)
        n = r.choice([3, 5, 10, 20]) if k.streaming else r.choice([3, 5, 8])
        where = set(r.sample(range(n + 1), min(n + 1, r.choice([1, 2, 3, 6]))))
        for i in range(n + 1):
            if i in where:
                for _ in range(r.choice([1, 1, 1, 2])):
                    ops.append(["bad", r.choice(bads)])
            if i < n:
                ops.append(k.draw_op(r, c))
        if r.random() < 0.25:
            ops.insert(r.randrange(len(ops) + 1), ["build", r.randrange(len(BUILD))])
        parts.append(dict(kind=k.name, cfg=c, ops=ops))
    order = [i for i, p in enumerate(parts) for _ in p["ops"]]
    r.shuffle(order)
    return dict(parts=parts, order=order)


def execute(plan, ctx):
    parts = plan["parts"]
    kinds = [zoo.kind(p["kind"]) for p in parts]
    real, clean = runtime.Process(), runtime.Process()
    with real:
        a = [k.make(real, p["cfg"]) for k, p in zip(kinds, parts)]
    with clean:
        b = [k.make(clean, p["cfg"]) for k, p in zip(kinds, parts)]
    at, scale, refused = [0] * len(parts), [0.0] * len(parts), ["start"] * len(parts)
    for i in plan["order"]:
        if i >= len(parts) or at[i] >= len(parts[i]["ops"]):
            continue
        k, p, op = kinds[i], parts[i], parts[i]["ops"][at[i]]
        at[i] += 1
        where = f"{k.name} {p['cfg']} operation {at[i] - 1} {op} after {refused[i]}"
        ctx.stat(k.name)
        ctx.steps += 1
        if op[0] == "build":
            name, args = BUILD[op[1]]
            ctx.fault("construct")
            with real:
                try:
                    getattr(real, name)(**{n: list(v) if isinstance(v, list) else v for n, v in args.items()})
                except Exception as ex:
                    ctx.event(name, type(ex).__name__)
                else:
                    check(False, "accepted", f"{name} accepted {args}")
            continue
        if op[0] == "bad":
            ctx.fault(f"{op[1][0]}-{op[1][1]}")
            if at[i] == 1:
                ctx.stat("refused-first")
            if at[i] == len(p["ops"]):
                ctx.stat("refused-last")
            if refused[i] != "start" and refused[i] == op[1]:
                ctx.stat("refused-twice")
            with real:
                before = k.read(a[i])
                k.apply(a[i], op)
                zoo.same_read(k, a[i], before, f"{k.name} {p['cfg']}: refused {op[1]}", tol=1e-12)
            refused[i] = op[1]
            ctx.state(k.name, op[1], p["ops"][at[i] - 2][0] if at[i] > 1 else "", p["ops"][at[i]][0] if at[i] < len(p["ops"]) else "")
            ctx.event("refused", op[1])
            continue
        with real:
            y = k.apply(a[i], op)
        with clean:
            z = k.apply(b[i], op)
        scale[i] = max(scale[i], zoo.magnitude(z))
        zoo.same_outputs(k, y, z, where, "changed", tol=1e-12, scale=scale[i])
        for v in y:
            ctx.values(k.name, v)
        for j in range(len(parts)):
            zoo.same_read(kinds[j], a[j], b[j], f"{kinds[j].name} {parts[j]['cfg']} after {where}", tol=1e-12)
