"""C19: the controller's integral term never exceeds its limit."""

import math
import pickle

import numpy

from sim import kit, runtime, zoo
from sim.kit import InvalidPlan, check

ID = "C19"
RUNS = dict(quick=48000, thorough=2500000)
SHRINK_LISTS = ("ops",)
RULE = ("A run drives one controller through up to 14 operations: pieces of signals, a simulated plant in closed loop with actuator and sensor faults, changes of the limit (also refused ones), resets and restarts from an encoding; "
        "the integral is recovered from every output sample and must be the running sum confined to the limit in force; distinct by digest of the outputs.")
STATE = "distinct (sequence of operations, limits, samples at the limit, changes of sign)"
REAL = ["diamondback.filters.PidFilter, diamondback.commons.Serial", "numpy"]
STUB = ["plant, actuator and sensor (faults injected)"]
ASSUMPTIONS = ["the integral is the output less its proportional and derivative parts, to 1e-9 of the largest of them", "the integral is unspecified for the samples at and directly after not-a-number, but its limit is not, and directly after a reset"]
FAULTS = ("nan", "inf", "minus-inf", "spike", "stuck-sensor", "lost-actuator", "saturated", "delayed")
PROBES = FAULTS + ("x", "loop", "limit", "refused", "reset", "restart", "limited", "reduced", "left-limit", "opposite-jump", "zero-limit")


def prepare():
    zoo.quiet()


def generate(r, tier):
    b = [round(r.uniform(-2, 2), 3), r.choice([-1, 1]) * round(r.uniform(0.05, 2), 3), r.choice([0.0, round(r.uniform(-1, 1), 3)])]
    ops, k = [], zoo.kind("pid")
    if r.random() < 0.8:
        ops.append(["limit", r.choice([0.5, 1.0, 3.0, 10.0, 100.0, round(r.uniform(0.01, 5), 3)])])
    for _ in range(r.choice([2, 4, 8, 14])):
        u = r.random()
        if u < 0.5:
            s = k.draw(r, dict(), r.choice([1, 1, 2, 3, 8, 20, 60]))
            if r.random() < 0.6:
                s["scale"] = r.choice([0.1, 0.5, 1.0, -1.0, 2.0, -3.0, 30.0])
            s["faults"] = [[r.choice(["nan", "inf", "minus-inf", "spike"]), r.random()] for _ in range(r.choice([0, 0, 0, 1, 2]))]
            ops.append(["x", s])
        elif u < 0.62:
            ops.append(["loop", dict(n=r.choice([5, 20, 60]), goal=r.choice([1.0, -1.0, 5.0, 0.1]), gain=r.choice([0.05, 0.2, 0.5]), delay=r.choice([0, 0, 3, 10]), clip=r.choice([0.2, 2.0, 50.0]), faults=[[r.choice(["stuck-sensor", "lost-actuator", "spike"]), r.random(), r.choice([1, 3, 10])] for _ in range(r.choice([0, 1, 2]))], seed=r.randrange(1 << 30))])
        elif u < 0.8:
            ops.append(["limit", r.choice([0.5, 1.0, 3.0, 10.0, 100.0, 1e9, 0.0, 0.01, round(r.uniform(0.01, 5), 3), round(r.uniform(0.01, 5), 3)])])
        elif u < 0.86:
            ops.append(["refused", r.choice([-1.0, -1e-9, -1e9])])
        elif u < 0.93:
            ops.append(["reset", r.choice([0.0, 1.0, -2.0, round(r.uniform(-20, 20), 2)])])
        else:
            ops.append(["restart", r.choice(["encode", "compress", "pickle"])])
    ops.append(["x", dict(kind="const", n=r.choice([1, 3, 10]), seed=0, scale=r.choice([-1, 1]) * r.choice([0.1, 1.0, 7.0]), form="array", faults=[])])
    return dict(b=b, aslist=r.random() < 0.3, ops=ops)


class Observer:
    """Recovers the integral from each sample."""

    def __init__(self, b, ctx):
        self.b, self.ctx = b, ctx
        self.limit, self.integral, self.last, self.skip = math.inf, 0.0, 0.0, 0
        self.held, self.top, self.limited, self.signs, self.n = None, 0.0, 0, 0, 0

    def see(self, x, y, where):
        b, ctx = self.b, self.ctx
        for v, w in zip(x, y):
            v, w = float(v), float(w)
            self.n += 1
            parts = (abs(b[0] * v), abs(b[2] * (v - self.last)))
            if math.isfinite(v):
                self.top = max(self.top, abs(v))
            if not all(map(math.isfinite, (v, *parts))):
                # not judged, but the limit must hold in what follows
                if math.isnan(v) or self.integral is None:
                    self.integral = None
                elif math.isfinite(self.limit):
                    self.integral = max(min(self.integral + v, self.limit), -self.limit)
                else:
                    self.integral = None
                self.last = v
                continue
            i = (w - b[0] * v - b[2] * (v - self.last)) / b[1]
            tol = 1e-9 * (sum(parts) / abs(b[1]) + self.top + (self.limit if math.isfinite(self.limit) else abs(self.integral or 0.0)))
            if math.isfinite(self.limit):
                check(abs(i) <= self.limit + tol, "exceeded", lambda: f"{where}: sample {self.n} ({v!r}) gives an integral of {i!r} where the limit is {self.limit!r}")
            if self.integral is not None:
                raw = self.integral + v
                want = max(min(raw, self.limit), -self.limit)
                if abs(raw) >= self.limit:
                    self.limited += 1
                    if self.integral * v < 0 and abs(self.integral) >= self.limit * (1 - 1e-9) and self.limit:
                        ctx.stat("opposite-jump")
                elif abs(self.integral) >= self.limit * (1 - 1e-9) and math.isfinite(self.limit):
                    ctx.stat("left-limit")
                if abs(i - want) > tol and self.held is not None:  # a limit may also confine the integral when it is assigned
                    want = min((max(min(h + v, self.limit), -self.limit) for h in self.held), key=lambda w: abs(i - w))
                check(abs(i - want) <= tol, "integral", lambda: f"{where}: sample {self.n} ({v!r}) takes the integral from {self.integral!r} to {i!r} instead of {want!r}, limit {self.limit!r}")
                self.signs += want * self.integral < 0
                self.integral = want
            elif math.isfinite(self.limit) or math.isfinite(i):
                self.integral = i
            self.held, self.last = None, v


def execute(plan, ctx):
    lib = runtime.Process()
    b = plan["b"]
    if len(b) != 3 or not b[1]:
        raise InvalidPlan("b")
    inst = lib.PidFilter(list(b) if plan["aslist"] else numpy.array(b))
    o = Observer(b, ctx)
    done = []
    for j, op in enumerate(plan["ops"]):
        where = f"controller {b} operation {j} {op[0]} after {done[-6:]}"
        ctx.stat(op[0])
        if op[0] == "x":
            x, values = zoo.piece(op[1])
            values = numpy.array(values)
            hurt = []
            for how, a in op[1].get("faults", ()):
                i = min(len(values) - 1, int(a * len(values)))
                if how != "spike" and not math.isfinite(o.limit):
                    continue
                values[i] = dict(zip(FAULTS, (math.nan, math.inf, -math.inf, values[i] * 100 + 50)))[how]
                hurt.append(how)
                ctx.fault(how)
            y = inst.filter(values if hurt else x)
            check(len(y) == len(values), "count", f"{where}: {len(y)} outputs for {len(values)} samples")
            o.see(values, y, where)
            ctx.values("y", y)
            done.append(["x", len(values), op[1]["kind"], op[1].get("scale"), hurt])
        elif op[0] == "loop":
            loop(inst, o, op[1], where, ctx)
            done.append(["loop", op[1]["n"]])
        elif op[0] == "limit":
            if op[1] < o.limit:
                ctx.stat("reduced")
            if not op[1]:
                ctx.stat("zero-limit")
            inst.limit = op[1]
            o.limit = op[1]
            if o.integral is not None:
                o.held = [max(min(h, o.limit), -o.limit) for h in (o.integral, o.integral if o.held is None else o.held[1])]
            done.append(op)
        elif op[0] == "refused":
            try:
                inst.limit = op[1]
            except ValueError:
                pass
            else:
                check(False, "accepted", f"{where}: a limit of {op[1]} was accepted")
            ctx.fault("refused")
            done.append(op)
        elif op[0] == "reset":
            inst.reset(op[1])
            o.integral, o.last, o.top = None, op[1], max(o.top, abs(op[1]))
            done.append(op)
        elif op[0] == "restart":
            with lib:
                inst = pickle.loads(pickle.dumps(inst)) if op[1] == "pickle" else lib.Serial.decode(lib.Serial.encode(inst, compress=op[1] == "compress"))
            ctx.fault("restart")
            done.append(op)
        else:
            raise InvalidPlan(op)
        check(inst.limit == o.limit, "limit", lambda: f"{where}: the limit reads {inst.limit!r} instead of {o.limit!r}")
    ctx.stat("limited", o.limited)
    ctx.steps += o.n
    ctx.state([d if d[0] == "limit" else d[0] for d in done], min(20, o.limited), min(5, o.signs))


def loop(inst, o, s, where, ctx):
    """A plant of first order, with a delayed and saturating actuator."""
    state, queue, seen = 0.0, [0.0] * s["delay"], 0.0
    if s["delay"]:
        ctx.fault("delayed")
    bad = {}
    for how, a, m in s["faults"]:
        at = min(s["n"] - 1, int(a * s["n"]))
        for i in range(at, at + m):
            bad[i] = how
        ctx.fault(how)
    for i in range(s["n"]):
        how = bad.get(i)
        if how != "stuck-sensor":
            seen = state
        x = s["goal"] - seen + (37.0 if how == "spike" else 0.0)
        y = inst.filter(numpy.array([x]))
        o.see([x], y, f"{where} step {i}")
        ctx.values("y", y)
        queue.append(0.0 if how == "lost-actuator" else float(y[0]))
        u = queue.pop(0)
        u = 0.0 if not math.isfinite(u) else u
        if abs(u) > s["clip"]:
            ctx.fault("saturated")
            u = math.copysign(s["clip"], u)
        state += s["gain"] * (u - 0.3 * state)
