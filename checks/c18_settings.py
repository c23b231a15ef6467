"""C18: settings changed in mid-stream take effect as if chosen at construction."""

import math

import numpy

from sim import kit, runtime, zoo
from sim.kit import InvalidPlan, check

ID = "C18"
RUNS = dict(quick=40000, thorough=1500000)
NEEDS_FAULTS = False
SHRINK_LISTS = ("ops",)
RULE = ("A run draws one component and a history of pieces of a signal, assignments of its settings (valid, repeated, refused), resets and, for classifiers, fits and predictions. Streaming filters are compared after every piece with a reference model that is given the same setting; "
        "filters of explicit coefficients also with a new instance constructed with the settings and the signal state read at the moment of the change; classifiers and converters with a new instance constructed with the settings in force. What a filter says of itself (response, delay, roots) is compared with the formula and with a new instance of the coefficients in force. Every setting is read back after each operation; distinct by digest of the outputs.")
STATE = "distinct (component, mode, sequence of settings and refusals, samples between them)"
REAL = ["diamondback.filters, diamondback.models", "numpy, scipy, scikit-learn"]
STUB = ["none"]
ASSUMPTIONS = ["agreement to 1e-8 of the largest value", "the frequency of a Goertzel filter applies from the first block which begins after the change", "a change of a classifier's setting applies from the next fit on; predictions between are not judged", "rates of conversion that differ by less than 2e-4 of their value are not drawn"]
KINDS = ["fir", "iir", "goertzel", "pid", "rank", "exponential", "bandpass", "frequency", "polyphase", "polynomial", "gaussian", "mixture"]
ADAPT = {"exponential": {"phase"}, "frequency": {"frequency", "b", "s"}, "bandpass": {"b"}}  # changed by samples
PROBES = tuple(KINDS) + ("twin", "same-value", "slight", "refused", "mid-block", "coefficient", "state", "analysis")


def prepare():
    runtime.fast_design()
    zoo.quiet()


class LimitedRef(zoo.PidRef):
    limit = math.inf

    def step(self, x):
        out = []
        for v in x:
            self.s = max(min(self.s + v, self.limit), -self.limit)
            out.append(self.b[0] * v + self.b[1] * self.s + self.b[2] * (v - self.p))
            self.p = v
        return [numpy.array(out)]

    def set(self, name, v):
        self.limit = v


class BlockRef(zoo.GoertzelRef):
    """A block in progress at a change is not judged."""

    mixed = False

    def step(self, x):
        self.doubt = []
        out, n = [], len(self.w)
        for v in numpy.asarray(x):
            y = super().step(numpy.array([v]))[0]
            if len(y):
                out.append(y[0])
                self.doubt.append(self.mixed)
                self.mixed = False
        return [numpy.array(out, complex)]

    def set(self, name, v):
        if self.x:
            self.mixed = True
        self.f = v


def scores(kind, settings, c, data, q):
    """Closeness of each row of q to each class, from the documentation and the settings."""
    import sklearn.mixture

    x, y = zoo.labelled(data)
    if kind == "mixture":
        numpy.random.seed(data.get("random", 0) % (1 << 32))
    out = []
    for label in sorted(set(y.tolist())):
        z = x[y == label]
        if kind == "gaussian":
            u = z.mean(0)
            i = numpy.linalg.inv((z - u).T @ (z - u) / z.shape[1] + settings["regularize"] * numpy.identity(z.shape[1]))
            out.append([-(v - u) @ i @ (v - u) for v in q])
        else:
            m = sklearn.mixture.GaussianMixture(covariance_type="full", n_components=c["order"], max_iter=settings["index"], reg_covar=settings["regularize"]).fit(z)
            out.append([sum(w * numpy.exp(-0.5 * (v - u) @ i @ (v - u)) for w, u, i in zip(m.weights_, m.means_, m.precisions_)) for v in q])
    return numpy.array(out).T


def generate(r, tier):
    name = r.choice(KINDS + ["bandpass", "frequency", "fir", "iir", "goertzel", "polyphase"] * 2)
    k = zoo.kind(name)
    c = k.cfg(r)
    if name == "polyphase":
        c["rate"] = r.choice([0.5, 1.0, 1.37, 2.0, 3.3, 0.21])
    twin = name in ("fir", "iir") and r.random() < 0.6
    ops, recent = [], None
    for _ in range(r.choice([2, 4, 7, 12])):
        u = r.random()
        if k.asks and r.random() < 0.12:
            ops.append(zoo.draw_ask(r) if recent is None or r.random() < 0.5 else ["ask", *r.choice([["response", 16, 1], ["delay", 16, 1]])])
        elif u < 0.45:
            if name in ("gaussian", "mixture"):
                ops.append(["fit", k.data(r, c)] if r.random() < 0.5 else ["predict", k.query(r, c)])
            else:
                ops.append(["x", k.draw(r, c, r.choice([1, 1, 2, 3, 5, 8, 20, 40]))])
        elif u < 0.55 and recent is not None and name != "exponential":
            ops.append(list(recent))  # once more
        elif u < 0.62 and k.bad_settings(r, c):
            ops.append(["bad", r.choice([b for b in k.bad_settings(r, c) if b[0] == "set"])] if any(b[0] == "set" for b in k.bad_settings(r, c)) else ["x", k.draw(r, c, 2)])
        elif u < 0.7 and k.resets and name != "iir":
            ops.append(["reset", k.draw_reset(r, c)])
        else:
            op = ["set", *k.draw_set(r, c)]
            if name == "polyphase":
                op = ["set", "rate", r.choice([0.5, 1.0, 1.37, 2.0, 3.3, 0.21, 0.9, 1.1])]
            if name == "bandpass" and r.random() < 0.1:
                op = ["set", "b", dict(re=[round(r.uniform(-1, 1), 3)], im=[round(r.uniform(-1, 1), 3)])]
            if twin:
                v = r.random()
                n, comp = k.length(c), k.comp(c) == "both"
                if v < 0.35:
                    op = ["set", "s", zoo.draw_array(r, n, comp, False)]
                elif v < 0.7 and name == "iir" and n > 1:
                    op = ["set", "a", zoo.stable(r, n - 1, comp and isinstance(c.get("a"), dict))]
            # A change may be a slight one.
            last = {**{n: v for n, v in c.items() if n in k.settings}, **{o[1]: o[2] for o in ops if o[0] == "set"}}.get(op[1])
            if isinstance(last, float) and last and math.isfinite(last) and r.random() < 0.2:
                op = ["set", op[1], last * r.choice([0.9995, 0.999, 0.99])]
            ops.append(op)
            recent = op
    if name in ("gaussian", "mixture"):
        ops.append(["fit", k.data(r, c)])
        ops.append(["predict", dict(k.query(r, c), n=12)])
    else:
        ops.append(["x", k.draw(r, c, r.choice([5, 20, 60]))])
    return dict(kind=name, cfg=c, twin=twin, aslist=r.random() < 0.3, ops=ops)


def value(plan, name, v):
    if name in ("a", "b", "s"):
        v = zoo.dec(v)
        return v.tolist() if plan["aslist"] else v
    return v


def equal(kind, name, a, b):
    if name in ("a", "b", "s"):
        return kit.close(numpy.asarray(a), numpy.asarray(b), 1e-12)
    if name in ("phase", "frequency"):  # angles in half turns
        return abs(math.remainder(a - b, 2.0)) < 1e-12
    return a == b


def direct(inst, length, count):
    """The response of coefficients, and where it is well conditioned."""
    b = numpy.asarray(inst.b)
    a = numpy.asarray(getattr(inst, "a", [0.0]))
    f = numpy.arange(length) * 2.0 / length - 1.0
    z = numpy.exp(-1j * math.pi * f)
    n, d = numpy.zeros(length, complex), numpy.ones(length, complex)
    for i, v in enumerate(b):
        n = n + v * z**i
    for i, v in enumerate(a[1:]):
        d = d - v * z ** (i + 1)
    good = abs(d) > 1e-3 * (1.0 + abs(a).sum())
    return numpy.where(good, n / numpy.where(good, d, 1.0), 0.0) ** count, f, good


def ask(k, lib, inst, op, where):
    got = k.apply(inst, op)
    if op[1] == "response":
        y, f, good = direct(inst, op[2], op[3])
        check(len(got) == 2 and numpy.shape(got[0]) == (op[2],) and kit.close(numpy.asarray(got[1]), f, 1e-9), "analysis", lambda: f"{where}: a response of shapes {[numpy.shape(v) for v in got]}")
        v = numpy.where(good, got[0], 0.0)
        scale = (abs(numpy.asarray(inst.b)).sum() / (abs(numpy.asarray(getattr(inst, "a", 0.0))).sum() + 1.0)) ** op[3]
        check(kit.close(v, y, 1e-7, max(float(scale), float(abs(y).max()))), "analysis", lambda: f"{where}: {op}: response {kit.worst(v, y)} of the coefficients in force")
    names = ("a", "b") if hasattr(inst, "a") else ("b",)
    new = getattr(lib, "IirFilter" if "a" in names else "FirFilter")(**{n: numpy.array(getattr(inst, n)) for n in names})
    zoo.compare(k, got, zoo.asked(new, *op[1:]), f"{where}: {op} against a new instance with these coefficients", "analysis", 1e-7)
    return got


def readable(k, inst):
    names = set(k.settings) | ({"rate", "frequency"} if k.name in ("bandpass", "frequency") else set()) | ({"a", "b"} if k.name == "iir" else set())
    return {n: numpy.array(getattr(inst, n)) if n in ("a", "b") else getattr(inst, n) for n in sorted(names)}


def execute(plan, ctx):
    k, c = zoo.kind(plan["kind"]), plan["cfg"]
    lib = runtime.Process()
    inst = k.make(lib, c)
    ctx.stat(k.name)
    mode = "model" if k.name in ("gaussian", "mixture") else "static" if k.name == "polynomial" else "twin" if plan["twin"] else "ref"
    ref = None
    if mode == "ref":
        ref = LimitedRef(zoo.dec(c["b"])) if k.name == "pid" else BlockRef(numpy.array(c["b"], float), c["frequency"]) if k.name == "goertzel" else k.ref(c, lib)
    twin = None
    if mode == "twin":
        ctx.stat("twin")
    known = readable(k, inst)
    for n in known:
        if n in c:
            check(n in ("a", "b") or equal(k, n, known[n], c[n]), "read", f"{k.name} {c}: {n} reads {known[n]!r} after construction with {c[n]!r}")
    scale, stale, trail = 0.0, False, []
    for j, op in enumerate(plan["ops"]):
        where = f"{k.name} {c} operation {j} after {[o[:2] if o[0] == 'bad' else o[:3] if o[0] == 'set' else o[0] for o in plan['ops'][:j]][-6:]}"
        if op[0] == "set":
            v = value(plan, op[1], op[2])
            before = known.get(op[1])
            if before is not None and equal(k, op[1], before, v) if before is not None and numpy.shape(before) == numpy.shape(v) else False:
                ctx.stat("same-value")
            if k.name == "polyphase" and before != v and abs(before - v) < 2e-4 * max(before, v):
                raise InvalidPlan("rates too close")
            if mode == "ref" and k.name == "goertzel" and ref.x:
                ctx.stat("mid-block")
            setattr(inst, op[1], v)
            now = getattr(inst, op[1])
            check(equal(k, op[1], now, v), "read", lambda: f"{where}: {op[1]} reads {now!r} after {v!r} was assigned")
            if op[1] == "s":
                ctx.stat("state")
                scale = max(scale, zoo.magnitude([v]))
            if op[1] in ("a", "b"):
                ctx.stat("coefficient")
            if op[1] in known:
                known[op[1]] = numpy.array(v) if op[1] in ("a", "b") else v
            if mode == "ref":
                if k.name == "bandpass" and op[1] == "b":
                    ref.b = complex(zoo.dec(op[2])[0])
                    scale = max(scale, abs(ref.b))
                else:
                    ref.set(op[1], op[2])
            elif mode == "twin":
                names = ("a", "b", "s") if k.name == "iir" else ("b", "s")
                twin = getattr(lib, k.cls)(**{n: numpy.array(getattr(inst, n)) for n in names})
            if isinstance(v, float) and before is not None and v != before and abs(v - before) <= 0.0101 * abs(before):
                ctx.stat("slight")
            stale = True
            trail.append(op[1])
        elif op[0] == "ask":
            ctx.stat("analysis")
            ctx.values(k.name, *ask(k, lib, inst, op, where)[:1])
            trail.append(op[1])
        elif op[0] == "bad":
            ctx.stat("refused")
            ctx.fault("refused")
            k.apply(inst, op)
            trail.append("bad")
        elif op[0] == "reset":
            v = zoo.scalar(op[1])
            inst.reset(v)
            scale = max(scale, abs(v))
            if ref is not None:
                ref.reset(v)
            if twin is not None:
                twin.reset(v)
            trail.append("reset")
        elif op[0] == "fit":
            k.fit(inst, op[1])
            twin = getattr(lib, k.cls)(**({"order": c["order"]} if "order" in c else {}), **known)
            k.fit(twin, op[1])
            stale, data = False, op[1]
            trail.append("fit")
        elif op[0] == "predict":
            if twin is None or stale:
                continue
            q = zoo.argument(op[1], zoo.rows(op[1]))
            got, want = inst.predict(q), twin.predict(q)
            ctx.values(k.name, got)
            check(numpy.array_equal(got, want), "prediction", lambda: f"{where}: settings {known}: predictions {got.tolist()} instead of {want.tolist()} of a new instance")
            v = scores(k.name, known, c, data, numpy.array(q))
            for i in range(len(v)):
                w = numpy.sort(v[i])
                if len(w) > 1 and (numpy.diff(w) <= 1e-6 * abs(w).max() + 1e-200).any():
                    continue
                want = numpy.argsort(-v[i])
                check(got[i].tolist() == want.tolist(), "effect", lambda: f"{where}: settings {known}: row {i} is ranked {got[i].tolist()} instead of {want.tolist()} (closeness {v[i].tolist()})")
        elif mode == "static":
            x = k.arguments(op[1])
            got = k.call(inst, k.arguments(op[1]), op[1])
            other = k.make(lib, {n: known[n] for n in k.settings})
            zoo.same_outputs(k, got, k.call(other, x, op[1]), f"{where}: settings {known}", "static")
            ctx.values(k.name, got[0])
        else:
            x, values = zoo.piece(op[1])
            ctx.steps += len(values)
            y = k.run(inst, x)
            ctx.values(k.name, y[0])
            scale = max(scale, zoo.magnitude([values]))
            if mode == "twin":
                if twin is not None:
                    z = k.run(twin, zoo.piece(op[1])[0])
                    scale = max(scale, zoo.magnitude(z))
                    zoo.compare(k, y, z, f"{where}: against a new instance with these coefficients and states", "twin", 1e-9, None, scale)
            else:
                z = ref.step(values)
                scale = max(scale, zoo.magnitude(z))
                zoo.compare(k, y, z, where, "effect", scale=scale, doubt=getattr(ref, "doubt", None))
        now = readable(k, inst)
        for n in now:
            if n in ADAPT.get(k.name, ()) and op[0] in ("x", "reset"):
                known[n] = now[n]
                continue
            check(equal(k, n, now[n], known[n]), "read", lambda: f"{where}: after {op[:2]} {n} reads {now[n]!r} instead of {known[n]!r}")
    ctx.state(k.name, mode, trail, len(plan["ops"]))
