"""Every stateful component of the library: configurations, pieces of signals, operations and
reference models written from the documentation."""

import math

import numpy

from sim import kit
from sim.kit import InvalidPlan, check

EPS = float(numpy.finfo(float).eps)
TOL = 1e-8


# -- values in plans ---------------------------------------------------------------------

def enc(v):
    """Array to JSON."""
    v = numpy.asarray(v)
    if numpy.iscomplexobj(v):
        return dict(re=[float(x) for x in v.real.ravel()], im=[float(x) for x in v.imag.ravel()])
    return [float(x) for x in v.ravel()]


def dec(v):
    """JSON to array."""
    if isinstance(v, dict):
        if len(v["re"]) != len(v["im"]):
            raise InvalidPlan("complex")
        return numpy.array(v["re"]) + 1j * numpy.array(v["im"])
    return numpy.array(v, float)


def scalar(v):
    return complex(*v) if isinstance(v, list) else v


def draw_array(r, n, comp=False, nonzero=True):
    v = [round(r.uniform(-2, 2), 3) for _ in range(n)]
    if r.random() < 0.15:
        v[r.randrange(n)] = 0.0
    if r.random() < 0.1:
        v = [round(x) * 1.0 for x in v]
    if r.random() < 0.08:
        v = [v[-1] or 0.5] * n
    if nonzero and not any(v):
        v[0] = 1.0
    if comp:
        return dict(re=v, im=[round(r.uniform(-2, 2), 3) for _ in range(n)])
    return v


def draw_scalar(r, comp=False):
    v = r.choice([0.0, 1.0, -1.0, round(r.uniform(-5, 5), 3), round(r.uniform(-5, 5), 3), 250.0])
    return [v, round(r.uniform(-2, 2), 3)] if comp else v


def draw_frequency(r):
    return r.choice([0.0, 1.0, -1.0, 0.5, -0.5, 0.25, round(r.uniform(-1, 1), 4), round(r.uniform(-1, 1), 4), round(r.uniform(-1, 1), 4), 1e-4])


def stable(r, n, comp=False):
    """Recursive coefficients [0, a1, ..] with all poles inside the unit circle."""
    if n < 1:
        return [0.0]
    if comp:
        p = [r.uniform(0.0, 0.9) * complex(math.cos(t), math.sin(t)) for t in (r.uniform(-3.1, 3.1) for _ in range(n))]
    else:
        p = []
        while len(p) < n:
            m = r.uniform(0.0, 0.92)
            if len(p) + 2 <= n and r.random() < 0.6:
                t = r.uniform(0, math.pi)
                p += [m * complex(math.cos(t), math.sin(t)), m * complex(math.cos(t), -math.sin(t))]
            else:
                p.append(r.choice([-1, 1]) * m)
    a = -numpy.poly(p)
    a[0] = 0.0
    return enc(a if comp else a.real)


# -- pieces of signals --------------------------------------------------------------------

def piece(spec):
    """(argument for the component, the samples as an array)"""
    x = kit.signal(spec)
    if spec.get("magnitude"):  # keep away from zero
        x = numpy.where(abs(x) < 1e-3, 1e-3, x)
    form = spec.get("form", "array")
    if form == "list":
        return x.tolist(), x
    if form == "ints":
        x = numpy.round(x.real) + 0.0
        return [int(v) for v in x], x
    if form == "intarray":
        x = numpy.round(x.real) + 0.0
        return x.astype(int), x
    if form == "single":
        x = x.astype(numpy.complex64 if numpy.iscomplexobj(x) else numpy.float32)
        return x, x.astype(complex if numpy.iscomplexobj(x) else float)
    if form == "view":
        y = numpy.zeros(2 * len(x) + 1, x.dtype)
        y[1::2] = x
        return y[1::2], x
    if form == "reverse":
        return numpy.array(x[::-1])[::-1], x
    if form == "readonly":
        y = numpy.array(x)
        y.flags.writeable = False
        return y, x
    return numpy.array(x), x


FORMS = ["array", "array", "array", "list", "view", "readonly", "reverse"]


class Asked(list):
    """What a filter says of itself, as returned.  `view` is what of it may be compared:
    roots as their polynomial, delays where the magnitude does not vanish."""

    def __init__(self, results, what, weight=None):
        super().__init__(results)
        self.what, self.weight = what, weight

    def view(self):
        if self.what == "roots":
            return [numpy.array([len(v) for v in self])] + [numpy.poly(v) if len(v) else numpy.ones(1) for v in self]
        if self.what == "delay":
            y, f = self
            w = numpy.nan_to_num(abs(self.weight), posinf=0.0)
            m = w > 1e-3 * max(w.max(), 1e-300)
            m[:7], m[len(m) - 7 :] = False, False
            return [f, numpy.where(m, y, 0.0)]
        return list(self)


def asked(inst, what, length, count):
    """An analysis of a filter."""
    if what == "roots":
        return Asked(inst.roots(count), what)
    y, f = getattr(inst, what)(length, count)
    return Asked([y, f], what, numpy.array(inst.response(length)[0]) if what == "delay" else None)


def draw_ask(r):
    if r.random() < 0.5:
        return ["ask", r.choice(["response", "delay", "roots"]), 16, 1]
    return ["ask", r.choice(["response", "response", "delay", "roots"]), r.choice([2, 16, 64, 128]), r.choice([1, 1, 2, 3])]


class Kind:
    """One kind of component."""

    asks = False

    name = cls = None
    settings = ()
    resets = False
    memory = None
    forms = FORMS + ["single", "ints", "intarray"]
    signals = ("noise", "noise", "noise", "const", "step", "tone", "ramp", "sparse", "int")
    tol = TOL
    weight = 1
    unit = False  # samples limited to magnitude one
    streaming = True

    def cfg(self, r):
        return {}

    def make(self, lib, c):
        raise NotImplementedError

    def comp(self, c):
        """Whether signals are real, complex or both."""
        return "real"

    def draw(self, r, c, n, fresh=True):
        how = self.comp(c)
        comp = how == "complex" or how == "both" and r.random() < 0.5
        s = kit.draw_signal(r, n, comp, self.signals)
        s["form"] = r.choice(self.forms)
        if comp and s["form"] in ("ints", "intarray"):
            s["form"] = "array"
        if how == "both" and s["form"] in ("ints", "intarray") and comp:
            s["form"] = "list"
        return s

    def run(self, inst, x):
        y = inst.filter(x)
        return list(y) if isinstance(y, tuple) else [y]

    def value(self, name, v):
        return v

    def set(self, inst, name, v):
        setattr(inst, name, self.value(name, v))

    def draw_set(self, r, c):
        raise NotImplementedError

    def draw_reset(self, r, c):
        return draw_scalar(r, self.comp(c) == "complex")

    def reset(self, inst, v):
        inst.reset(scalar(v))

    def ref(self, c, lib):
        return None

    def bad(self, r, c):
        """Operations the component must refuse: [how, ...]."""
        out = [["signal", "empty-list"], ["signal", "empty-array"], ["signal", "matrix"], ["signal", "row"], ["signal", "column"]]
        if self.resets:
            out += [["reset", "list"], ["reset", "array"]]
        if self.asks:
            out += [["ask", what, *how] for what in ("response", "delay") for how in ([0, 1], [-8, 1], [16, 0])]
        return out + self.bad_settings(r, c)

    def bad_settings(self, r, c):
        return []

    def do_bad(self, inst, b):
        if b[0] == "signal":
            x = {"empty-list": [], "empty-array": numpy.zeros(0), "matrix": numpy.ones((4, 2)) * 0.25, "row": numpy.ones((1, 3)) * 0.5, "column": numpy.ones((5, 1)) * 0.5,
                 "complex": numpy.array([0.25, 0.5, 0.25 + 0.5j, 0.1]), "big": numpy.array([0.5, 0.25, 1.5, 0.1]), "neg": [0.5, -0.75, -1.01], "one": numpy.ones((1, 1)) * 0.5}[b[1]]
            self.run(inst, x)
        elif b[0] == "ask":
            getattr(inst, b[1])(b[2], b[3])
        elif b[0] == "reset":
            inst.reset([1.0, 2.0, 3.0] if b[1] == "list" else numpy.array([1.0, 2.0]))
        elif b[0] == "set":
            setattr(inst, b[1], b[2])
        else:
            raise InvalidPlan(b)

    def read(self, inst):
        """Everything a user can read back."""
        out = {}
        for n in sorted({n for n in dir(type(inst)) if isinstance(getattr(type(inst), n), property)}):
            v = getattr(inst, n)
            out[n] = numpy.array(v) if isinstance(v, numpy.ndarray) else v
        return out

    # generic operations ----------------------------------------------------------------
    def apply(self, inst, op):
        if op[0] == "x":
            return self.run(inst, piece(op[1])[0])
        if op[0] == "reset":
            self.reset(inst, op[1])
        elif op[0] == "set":
            self.set(inst, op[1], op[2])
        elif op[0] == "bad":
            try:
                self.do_bad(inst, op[1])
            except InvalidPlan:
                raise
            except Exception:
                return []
            check(False, "accepted", f"{self.name} {op[1]} was accepted")
        elif op[0] == "ask" and self.asks:
            return asked(inst, *op[1:])
        else:
            raise InvalidPlan(op)
        return []

    def draw_op(self, r, c, n=None):
        k = r.random()
        if self.asks and k > 0.95:
            return draw_ask(r)
        if self.resets and k < 0.1:
            return ["reset", self.draw_reset(r, c)]
        if self.settings and k < 0.25:
            return ["set", *self.draw_set(r, c)]
        return ["x", self.draw(r, c, n or r.choice([1, 1, 2, 3, 5, 8, 20, 60]))]


class FirRef:
    def __init__(self, b, s=None, gain=None):
        self.b = numpy.asarray(b)
        self.h = numpy.zeros(len(self.b), complex if numpy.iscomplexobj(self.b) else float)
        if s is not None:
            self.h[: len(s)] = s

    def step(self, x):
        n = len(self.h)
        full = numpy.concatenate((self.h[::-1], x))
        y = numpy.array([self.b @ full[k + 1 : k + 1 + n][::-1] for k in range(len(x))])
        self.h = full[len(full) - n :][::-1]
        if not numpy.iscomplexobj(self.b):
            y = y.real
        return [y]

    def reset(self, v):
        self.h = self.h * 0 + v

    def set(self, name, v):
        self.b = dec(v)


class Fir(Kind):
    asks = True
    name, cls, settings, resets = "fir", "FirFilter", ("b",), True

    def cfg(self, r):
        if r.random() < 0.04:
            return dict(design=dict(style=r.choice(["Blackman", "hamming", "Hann", "Kaiser"]), frequency=round(r.uniform(0.15, 0.85), 3), order=r.choice([4, 6, 8, 12, 18]), count=r.choice([1, 2]), complement=r.random() < 0.4, gain=r.choice([1.0, 2.5])))
        n, comp = r.choice([1, 1, 2, 3, 4, 5, 8, 16]), r.random() < 0.4
        c = dict(b=draw_array(r, n, comp), aslist=r.random() < 0.3)
        if r.random() < 0.3:
            c["s"] = draw_array(r, r.choice([1, n, n, n + 2]), comp, False)
        return c

    def coef(self, c):
        b = dec(c["b"])
        if "s" in c and len(c["s"]["re"] if isinstance(c["s"], dict) else c["s"]) > len(b):
            b = numpy.concatenate((b, numpy.zeros(len(c["s"]["re"] if isinstance(c["s"], dict) else c["s"]) - len(b))))
        return b

    def make(self, lib, c):
        if "design" in c:
            return lib.FirFilter(**c["design"])
        k = dict(b=dec(c["b"]))
        if "s" in c:
            k["s"] = dec(c["s"])
        if c.get("aslist"):
            k = {n: [int(x) if x == int(x.real) and not numpy.iscomplexobj(v) else x for x in v.tolist()] for n, v in k.items()}
        return lib.FirFilter(**k)

    def comp(self, c):
        return "both" if isinstance(c.get("b"), dict) else "real"

    def ref(self, c, lib):
        if "design" in c:
            return FirRef(self.make(lib, c).b)
        return FirRef(self.coef(c), dec(c["s"]) if "s" in c else None)

    def length(self, c):
        return c["design"]["order"] + 1 if "design" in c else len(self.coef(c))

    def memory_of(self, c):
        return self.length(c)

    def draw_set(self, r, c):
        return ["b", draw_array(r, self.length(c), isinstance(c.get("b"), dict))]

    def value(self, name, v):
        return dec(v)

    def draw_reset(self, r, c):
        return draw_scalar(r, isinstance(c.get("b"), dict) and r.random() < 0.5)


class IirRef:
    """Second form, with the documented meaning of the states."""

    def __init__(self, a, b, s=None):
        self.a, self.b = numpy.asarray(a), numpy.asarray(b)
        n = len(self.b)
        kind = complex if numpy.iscomplexobj(self.a) or numpy.iscomplexobj(self.b) else float
        v = numpy.zeros(n, kind)
        if s is not None:
            v[: len(s)] = s
        self._from(v)

    def _from(self, s):
        """w[i] is the recursive state i+1 samples ago."""
        n = len(self.b)
        self.w = numpy.zeros(max(1, n - 1), s.dtype)
        self.last = s
        if n > 1:
            self.w[0] = s[0] + self.a[1:] @ s[1:]
            self.w[1:] = s[1 : n - 1]

    def step(self, x):
        n, out = len(self.b), []
        for v in x:
            if n == 1:
                out.append(self.b[0] * v)
                continue
            w = v + self.a[1:] @ self.w
            out.append(self.b[0] * w + self.b[1:] @ self.w)
            self.w = numpy.concatenate(([w], self.w[:-1]))
        return [numpy.array(out)]

    def reset(self, v):
        n = len(self.b)
        s = numpy.zeros(n, self.w.dtype)
        if n > 1:
            s[1:] = v * (1.0 - self.b[0]) / (self.a[1:] * self.b[0] + self.b[1:]).sum()
        s[0] = v
        self._from(s)

    def set(self, name, v):
        if name == "b":
            self.b = dec(v)
        else:
            # The states are those of the filter, so the recursion of the sample just past uses the new coefficients.
            raise InvalidPlan("a")


class Iir(Kind):
    asks = True
    name, cls, settings, resets = "iir", "IirFilter", ("b",), True

    def cfg(self, r):
        if r.random() < 0.04:
            style = r.choice(["Butterworth", "Chebyshev", "butterworth"])
            return dict(design=dict(style=style, frequency=round(r.uniform(0.1, 0.9), 3), order=r.randrange(1, 5), complement=r.random() < 0.3))
        comp = r.random() < 0.35
        n = r.choice([1, 2, 2, 3, 4, 5])
        c = dict(a=stable(r, n - 1, comp), b=draw_array(r, r.choice([n, n, max(1, n - 1), n + 1]), comp and r.random() < 0.7), aslist=r.random() < 0.3)
        if r.random() < 0.35 and n > 1:  # unity gain
            a, b = dec(c["a"]), dec(c["b"])
            if abs(b.sum()) > 0.1:
                c["b"], c["unity"] = enc(b * (1.0 - a.sum()) / b.sum()), True
        if r.random() < 0.2:
            m = max(len(dec(c["a"])), len(dec(c["b"])))
            c["s"] = draw_array(r, m, self._comp(c), False)
        return c

    def _comp(self, c):
        return isinstance(c.get("a"), dict) or isinstance(c.get("b"), dict)

    def coef(self, c):
        a, b = dec(c["a"]), dec(c["b"])
        n = max(len(a), len(b))
        a, b = numpy.concatenate((a, numpy.zeros(n - len(a)))), numpy.concatenate((b, numpy.zeros(n - len(b))))
        if self._comp(c):
            a, b = a.astype(complex), b.astype(complex)
        return a, b

    def make(self, lib, c):
        if "design" in c:
            return lib.IirFilter(**c["design"])
        k = {n: dec(c[n]) for n in ("a", "b", "s") if n in c}
        if c.get("aslist"):
            k = {n: [int(x) if not numpy.iscomplexobj(v) and x == int(x) else x for x in v.tolist()] for n, v in k.items()}
        return lib.IirFilter(**k)

    def comp(self, c):
        return "both" if self._comp(c) else "real"

    def ref(self, c, lib):
        if "design" in c:
            f = self.make(lib, c)
            return IirRef(numpy.array(f.a), numpy.array(f.b))
        return IirRef(*self.coef(c), dec(c["s"]) if "s" in c else None)

    def length(self, c):
        return c["design"]["order"] + 1 if "design" in c else len(self.coef(c)[0])

    def draw_set(self, r, c):
        return ["b", draw_array(r, self.length(c), self._comp(c))]

    def value(self, name, v):
        return dec(v)

    def may_reset(self, c):
        """The documented state exists, and is not lost in rounding."""
        if "design" in c:
            return True
        a, b = self.coef(c)
        return len(a) == 1 or abs((a[1:] * b[0] + b[1:]).sum()) > 0.05

    def draw_op(self, r, c, n=None):
        op = super().draw_op(r, c, n)
        if op[0] == "reset" and (not self.may_reset(c) or c.get("noreset")):
            return ["x", self.draw(r, c, 3)]
        if op[0] == "set":  # a reset after it might not exist
            c["noreset"] = True
        return op

    def draw_reset(self, r, c):
        return draw_scalar(r, self._comp(c) and r.random() < 0.5)


DERIVATIVE = {
    (1, 1): [1.0, -1.0],
    (1, 2): [0.5, 0.0, -0.5],
    (1, 4): [-1 / 12, 8 / 12, 0.0, -8 / 12, 1 / 12],
    (2, 2): [1.0, -2.0, 1.0],
    (2, 4): [0.25, 0.0, -0.5, 0.0, 0.25],
    (2, 6): [-1 / 24, 8 / 24, 1 / 24, -16 / 24, 1 / 24, 8 / 24, -1 / 24],
    (2, 8): [1 / 144, -16 / 144, 64 / 144, 16 / 144, -130 / 144, 16 / 144, 64 / 144, -16 / 144, 1 / 144],
    (3, 4): [0.5, -1.0, 0.0, 1.0, -0.5],
    (3, 6): [1 / 8, 0.0, -3 / 8, 0.0, 3 / 8, 0.0, -1 / 8],
    (3, 8): [-1 / 48, 8 / 48, 2 / 48, -24 / 48, 0.0, 24 / 48, -2 / 48, -8 / 48, 1 / 48],
}
INTEGRAL = {0: [1.0], 1: [0.5, 0.5], 2: [1 / 6, 4 / 6, 1 / 6], 3: [1 / 8, 3 / 8, 3 / 8, 1 / 8], 4: [7 / 90, 32 / 90, 12 / 90, 32 / 90, 7 / 90]}


class Derivative(Kind):
    asks = True
    name, cls, resets = "derivative", "DerivativeFilter", True

    def cfg(self, r):
        d, o = r.choice(sorted(DERIVATIVE))
        return dict(derivative=d, order=o)

    def make(self, lib, c):
        return lib.DerivativeFilter(c["derivative"], c["order"])

    def ref(self, c, lib):
        return FirRef(DERIVATIVE[c["derivative"], c["order"]])

    def memory_of(self, c):
        return c["order"] + 1


class Integral(Kind):
    asks = True
    name, cls, resets = "integral", "IntegralFilter", False

    def cfg(self, r):
        return dict(order=r.randrange(5))

    def make(self, lib, c):
        return lib.IntegralFilter(c["order"])

    def ref(self, c, lib):
        b = numpy.array(INTEGRAL[c["order"]])
        n = max(2, len(b))
        return IirRef(numpy.array([0.0, 1.0] + [0.0] * (n - 2)), numpy.concatenate((b, numpy.zeros(n - len(b)))))

    def bad(self, r, c):
        return super().bad(r, c) + [["reset", "list"], ["reset", "array"]]


class GoertzelRef:
    def __init__(self, w, f):
        self.w, self.f, self.x = w, f, []

    def step(self, x):
        out, n, u = [], len(self.w), 1.0 if numpy.iscomplexobj(x) else 2.0
        for v in x:
            self.x.append(u * v)
            if len(self.x) == n:
                k = numpy.arange(n)
                out.append((self.w * numpy.array(self.x) * numpy.exp(1j * math.pi * self.f * (n - 1 - k))).sum() / n)
                self.x = []
        return [numpy.array(out, complex)]

    def set(self, name, v):
        if self.x:
            raise InvalidPlan("within a block")
        self.f = v


class Goertzel(Kind):
    asks = True
    name, cls, settings = "goertzel", "GoertzelFilter", ("frequency",)

    def cfg(self, r):
        n = r.choice([1, 2, 3, 5, 8, 16, 32])
        return dict(b=[round(r.uniform(0.1, 1), 3) for _ in range(n)], frequency=draw_frequency(r), aslist=r.random() < 0.3, complex=r.random() < 0.4)

    def make(self, lib, c):
        return lib.GoertzelFilter(b=c["b"] if c.get("aslist") else numpy.array(c["b"]), frequency=c["frequency"])

    def comp(self, c):
        return "complex" if c.get("complex") else "real"

    def ref(self, c, lib):
        return GoertzelRef(numpy.array(c["b"], float), c["frequency"])

    def draw_set(self, r, c):
        return ["frequency", draw_frequency(r)]

    def bad_settings(self, r, c):
        return [["set", "frequency", 1.5], ["set", "frequency", -1.0001]]


class PidRef:
    def __init__(self, b):
        self.b, self.s, self.p = b, 0.0, 0.0

    def step(self, x):
        out = []
        for v in x:
            self.s += v
            out.append(self.b[0] * v + self.b[1] * self.s + self.b[2] * (v - self.p))
            self.p = v
        return [numpy.array(out)]


class Pid(Kind):
    asks = True
    name, cls, settings = "pid", "PidFilter", ("limit",)

    def cfg(self, r):
        return dict(b=draw_array(r, 3), aslist=r.random() < 0.3)

    def make(self, lib, c):
        return lib.PidFilter(c["b"] if c.get("aslist") else dec(c["b"]))

    def draw_set(self, r, c):
        return ["limit", r.choice([0.5, 1.0, 3.0, 10.0, 100.0, 1e9, 0.0])]

    def ref(self, c, lib):
        return PidRef(dec(c["b"]))  # without a limit

    def bad_settings(self, r, c):
        return [["set", "limit", -1.0], ["set", "limit", -1e-9]]


class RankRef:
    def __init__(self, index, order):
        self.i, self.h = index, [0.0] * (order + 1)

    def step(self, x):
        out = []
        for v in x:
            self.h = [float(v)] + self.h[:-1]
            out.append(sorted(self.h, key=abs)[self.i])
        return [numpy.array(out)]

    def reset(self, v):
        self.h = [float(v)] * len(self.h)

    def set(self, name, v):
        self.i = v


class Rank(Kind):
    asks = True
    name, cls, settings, resets = "rank", "RankFilter", ("index",), True
    signals = ("noise", "noise", "const", "step", "sparse", "uniform")  # no values of equal magnitude and different sign
    forms = FORMS + ["single", "intarray", "ints"]

    def cfg(self, r):
        n = r.choice([0, 1, 2, 3, 4, 6, 10])
        return dict(index=r.randrange(n + 1), order=n)

    def make(self, lib, c):
        return lib.RankFilter(c["index"], c["order"])

    def draw(self, r, c, n, fresh=True):
        s = super().draw(r, c, n)
        if s["form"] in ("intarray", "ints"):  # positive whole numbers
            s["kind"], s["scale"] = r.choice(["const", "step"]), r.choice([1.0, 8.0, 12.0])
        elif s["kind"] in ("const", "step"):
            s["scale"] = r.choice([1.0, 0.3, 37.5])
        return s

    def draw_reset(self, r, c):
        return round(r.uniform(0.01, 5), 4)

    def ref(self, c, lib):
        return RankRef(c["index"], c["order"])

    def memory_of(self, c):
        return c["order"] + 1

    def draw_set(self, r, c):
        return ["index", r.randrange(c["order"] + 1)]

    def bad_settings(self, r, c):
        return [["set", "index", -1], ["set", "index", c["order"] + 1]]


class ExponentialRef:
    def __init__(self, phase):
        self.p = phase

    def step(self, x):
        p = self.p + numpy.concatenate(([0.0], numpy.cumsum(x)))
        self.p = math.remainder(float(p[-1]), 2.0)
        return [numpy.exp(1j * math.pi * p[:-1])]

    def set(self, name, v):
        self.p = v


class Exponential(Kind):
    name, cls, settings = "exponential", "ComplexExponentialFilter", ("phase",)
    signals = ("uniform", "uniform", "const", "tone", "step")
    forms = FORMS
    tol = 1e-9

    def cfg(self, r):
        return dict(phase=draw_frequency(r)) if r.random() < 0.8 else {}

    def make(self, lib, c):
        return lib.ComplexExponentialFilter(c["phase"]) if "phase" in c else lib.ComplexExponentialFilter()

    def draw(self, r, c, n, fresh=True):
        s = super().draw(r, c, n)
        s["scale"] = r.choice([1.0, 1.0, 0.1, -0.5, 0.013, 0.0])
        return s

    def ref(self, c, lib):
        return ExponentialRef(c.get("phase", 0.0))

    def draw_set(self, r, c):
        return ["phase", draw_frequency(r)]

    def bad(self, r, c):
        return super().bad(r, c) + [["signal", "complex"], ["signal", "big"], ["signal", "neg"], ["signal", "one"]]

    def bad_settings(self, r, c):
        return [["set", "phase", 1.01], ["set", "phase", -2.0]]

    def read(self, inst):
        return dict(phase=inst.phase)


class BandpassRef:
    def __init__(self, f, rate):
        self.f, self.rate, self.b, self.p = f, rate, EPS + 0j, 0.0

    def step(self, d):
        y, e, b = [], [], []
        for v in d:
            x = numpy.exp(1j * math.pi * self.p)
            self.p = math.remainder(self.p + self.f, 2.0)
            y.append(x * self.b)
            e.append(v - y[-1])
            b.append(self.b)
            self.b = self.b + self.rate * e[-1] * numpy.conjugate(x)
        return [numpy.array(y), numpy.array(e), numpy.array(b)]

    def set(self, name, v):
        setattr(self, dict(frequency="f", rate="rate")[name], v)


class Bandpass(Kind):
    asks = True
    name, cls, settings = "bandpass", "ComplexBandpassFilter", ("frequency", "rate")
    forms = FORMS + ["single"]

    def cfg(self, r):
        return dict(frequency=draw_frequency(r), rate=r.choice([0.0, 1.0, 0.5, 0.1, 0.01, round(r.random(), 3)]))

    def make(self, lib, c):
        return lib.ComplexBandpassFilter(c["frequency"], c["rate"])

    def comp(self, c):
        return "complex"

    def ref(self, c, lib):
        return BandpassRef(c["frequency"], c["rate"])

    def draw_set(self, r, c):
        return ["frequency", draw_frequency(r)] if r.random() < 0.5 else ["rate", r.choice([0.0, 1.0, 0.2, 0.03])]

    def bad_settings(self, r, c):
        return [["set", "frequency", 1.5], ["set", "rate", -0.1], ["set", "rate", 1.1], ["set", "frequency", -1.2]]


class FrequencyRef:
    def __init__(self, f, rate):
        self.rate, self.b, self.s = rate, numpy.exp(1j * math.pi * f), 1.0 + 0j

    def step(self, d):
        y, e, b = [], [], []
        for v in d:
            m = abs(v)
            x = v / (m if m > 1e-8 else 1.0)
            y.append(numpy.angle(self.b) / math.pi)
            e.append(x - self.b * self.s)
            b.append(self.b)
            self.b = self.b + self.rate * e[-1] * numpy.conjugate(self.s)
            self.s = x
        return [numpy.array(y), numpy.array(e), numpy.array(b)]

    def reset(self, v):
        self.s = 1.0 + 0j if abs(v) < 1e-8 else v / abs(v)

    def set(self, name, v):
        if name == "rate":
            self.rate = v
        else:
            self.b = numpy.exp(1j * math.pi * v)


class Frequency(Kind):
    asks = True
    name, cls, settings, resets = "frequency", "ComplexFrequencyFilter", ("frequency", "rate"), True
    forms = FORMS

    def cfg(self, r):
        return dict(frequency=draw_frequency(r), rate=r.choice([0.0, 1.0, 0.5, 0.1, 0.01, round(r.random(), 3)]))

    def make(self, lib, c):
        return lib.ComplexFrequencyFilter(c["frequency"], c["rate"])

    def comp(self, c):
        return "complex"

    def draw(self, r, c, n, fresh=True):
        s = super().draw(r, c, n)
        s["magnitude"] = True
        return s

    def ref(self, c, lib):
        return FrequencyRef(c["frequency"], c["rate"])

    draw_set = Bandpass.draw_set
    bad_settings = Bandpass.bad_settings


class PolyphaseRef:
    def __init__(self, rate, bank):
        self.rate, self.bank, self.index, self.h = rate, numpy.array(bank), 0.0, numpy.zeros(numpy.shape(bank)[1])

    def step(self, x):
        out, rr = [], len(self.bank)
        self.doubt = []
        for v in x:
            h = numpy.concatenate(([v], self.h[:-1]))
            while self.rate and self.index < rr:
                f = self.index
                k = min(int(numpy.round(f)), rr - 1)
                self.doubt.append(abs((f % 1.0) - 0.5) < 1e-6 and f != int(f * 2) / 2.0)
                out.append(self.bank[k] @ h)
                self.index += rr / self.rate
            if self.rate:
                self.index -= rr
                self.h = h
        return [numpy.array(out)]

    def reset(self, v):
        self.h = self.h * 0 + v

    def set(self, name, v):
        if not numpy.isclose(self.rate, v):
            self.index = 0.0
        self.rate = v


class Polyphase(Kind):
    name, cls, settings, resets = "polyphase", "PolyphaseRateFilter", ("rate",), True
    memory = 15

    def draw_rate(self, r):
        return r.choice([1.0, 2.0, 0.5, 1.5, 0.75, 3.0, 0.25, 4 / 3, 2 / 3, 0.1, 7.3, round(r.uniform(0.1, 4), 3), round(r.uniform(0.1, 4), 3), round(r.uniform(1, 20), 2), math.pi, 0.0137])

    def cfg(self, r):
        return dict(rate=self.draw_rate(r))

    def make(self, lib, c):
        return lib.PolyphaseRateFilter(c["rate"])

    def ref(self, c, lib):
        return PolyphaseRef(c["rate"], self.make(lib, c).b)

    def draw_set(self, r, c):
        return ["rate", self.draw_rate(r)]

    def bad_settings(self, r, c):
        return [["set", "rate", -0.5], ["set", "rate", 300.0], ["set", "rate", 256.5]]

    def memory_of(self, c):
        return 15

    def read(self, inst):
        return dict(rate=inst.rate, s=numpy.array(inst.s))


# -- models --------------------------------------------------------------------------------

def rows(spec):
    """Rows of observations."""
    g = numpy.random.Generator(numpy.random.PCG64(spec["seed"]))
    n, d = int(spec["n"]), int(spec["dim"])
    if n < 1 or d < 1:
        raise InvalidPlan("rows")
    how = spec.get("how", "noise")
    x = g.standard_normal((n, d)) * spec.get("scale", 1.0)
    if how == "grid":
        x = numpy.round(x * 2) / 2
    elif how == "repeat":
        x = x[g.integers(0, max(1, n // 2), n)]
    elif how == "line":
        x = numpy.outer(numpy.arange(n) * 0.5 - 1.0, numpy.ones(d))
    return x * spec.get("unit", 1.0)


def argument(spec, x):
    form = spec.get("form", "array")
    if form == "list":
        return x.tolist()
    if form == "rows":
        return [numpy.array(v) for v in x]
    if form == "fortran":
        return numpy.asfortranarray(x)
    if form == "readonly":
        y = numpy.array(x)
        y.flags.writeable = False
        return y
    return numpy.array(x)


class Diversity(Kind):
    name, cls = "diversity", "DiversityModel"
    streaming = False

    def cfg(self, r):
        return dict(style=r.choice(["Chebyshev", "Euclidean", "Geometric", "Manhattan", "euclidean"]), order=r.choice([1, 1, 2, 3, 5, 7]), dim=r.choice([1, 2, 3]))

    def make(self, lib, c):
        return lib.DiversityModel(c["style"], c["order"])

    def draw(self, r, c, n, fresh=True):
        return dict(n=n, dim=c["dim"], seed=r.randrange(1 << 30), how=r.choice(["noise", "noise", "grid", "repeat", "line"]), scale=r.choice([1.0, 1.0, 100.0, 1e-3]), form=r.choice(["array", "array", "list", "rows", "fortran", "readonly"]))

    def apply(self, inst, op):
        if op[0] == "x":
            return [inst.fit(argument(op[1], rows(op[1])))]
        if op[0] == "clear":
            inst.clear()
            return []
        return super().apply(inst, op)

    def draw_op(self, r, c, n=None):
        if r.random() < 0.06:
            return ["clear"]
        return ["x", self.draw(r, c, n or r.choice([1, 1, 2, 3, 6, 12]))]

    def bad(self, r, c):
        return [["fit", "vector"], ["fit", "empty"], ["fit", "cube"], ["fit", "nocolumns"]] + [["fit", "wide", c["dim"] + 1]] * 2

    def do_bad(self, inst, b):
        if b[1] == "wide" and not inst.s.shape[1]:
            raise ValueError("any dimension is right at first")
        x = {"vector": numpy.ones(3), "empty": numpy.zeros((0, 2)), "cube": numpy.ones((2, 2, 2)), "nocolumns": numpy.zeros((3, 0))}.get(b[1])
        inst.fit(numpy.ones((3, b[2])) * 7.0 if x is None else x)

    def read(self, inst):
        return dict(s=numpy.array(inst.s))


def labelled(spec):
    g = numpy.random.Generator(numpy.random.PCG64(spec["seed"]))
    k, d, n = int(spec["classes"]), int(spec["dim"]), int(spec["n"])
    if min(k, d, n) < 1:
        raise InvalidPlan("data")
    centres = g.standard_normal((k, d)) * spec.get("spread", 3.0)
    labels = numpy.arange(n) % k if n >= k else numpy.arange(n)
    x = centres[labels] + g.standard_normal((n, d)) * spec.get("scale", 1.0)
    if spec.get("shuffle"):
        p = g.permutation(n)
        x, labels = x[p], labels[p]
    y = labels * spec.get("step", 1) + spec.get("base", 0)
    return x, y.astype(spec.get("dtype", "int64"))


class Gaussian(Kind):
    name, cls, settings = "gaussian", "GaussianModel", ("regularize",)
    streaming = False

    def cfg(self, r):
        c = dict(dim=r.choice([1, 2, 3]))
        if r.random() < 0.6:
            c["regularize"] = r.choice([0.1, 0.5, 0.01, 1.0, 3.0])
        return c

    def make(self, lib, c):
        return lib.GaussianModel(c["regularize"]) if "regularize" in c else lib.GaussianModel()

    def data(self, r, c):
        k = r.choice([1, 2, 2, 3, 4])
        return dict(n=k * r.randrange(5, 12) + r.randrange(k), classes=k, dim=c["dim"], seed=r.randrange(1 << 30), scale=r.choice([0.3, 1.0, 2.0]), shuffle=r.random() < 0.5, step=r.choice([1, 1, 3]), base=r.choice([0, 0, 5, -2]), dtype=r.choice(["int64", "int64", "int32", "int8"]))

    def query(self, r, c):
        return dict(n=r.choice([1, 2, 3, 7]), dim=c["dim"], seed=r.randrange(1 << 30), scale=4.0, form=r.choice(["array", "array", "fortran", "readonly"]))

    def fit(self, inst, spec):
        inst.fit(*labelled(spec))

    def apply(self, inst, op):
        if op[0] == "fit":
            self.fit(inst, op[1])
            return []
        if op[0] == "predict":
            try:
                return [inst.predict(argument(op[1], rows(op[1])))]
            except ValueError as ex:
                if inst.shape:
                    raise
                return [numpy.array([])]
        return super().apply(inst, op)

    def draw_set(self, r, c):
        return ["regularize", r.choice([0.1, 0.5, 0.02, 1.0, 2.0])]

    def draw_op(self, r, c, n=None):
        k = r.random()
        if k < 0.12:
            return ["set", *self.draw_set(r, c)]
        if k < 0.4:
            return ["fit", self.data(r, c)]
        return ["predict", self.query(r, c)]

    def bad(self, r, c):
        d = c["dim"]
        return [["fit", "vector", d], ["fit", "count", d], ["fit", "float", d], ["fit", "empty", d], ["predict", "vector", d], ["predict", "wide", d], ["predict", "empty", d]] + self.bad_settings(r, c)

    def bad_settings(self, r, c):
        return [["set", "regularize", -0.1]]

    def do_bad(self, inst, b):
        if b[0] == "set":
            return setattr(inst, b[1], b[2])
        d = b[2]
        x, y = numpy.arange(6.0 * d).reshape(6, d) ** 1.5, numpy.array([0, 1, 0, 1, 0, 1])
        if b[0] == "fit":
            inst.fit(*dict(vector=(x[:, 0], y), count=(x, y[:5]), float=(x, y * 1.0), empty=(x[:0], y[:0]))[b[1]])
        else:
            inst.predict(dict(vector=x[0], wide=numpy.ones((2, d + 1)), empty=x[:0])[b[1]])

    def read(self, inst):
        return dict(regularize=inst.regularize, shape=inst.shape)


class Mixture(Gaussian):
    name, cls, settings = "mixture", "GaussianMixtureModel", ("regularize", "index")

    def cfg(self, r):
        c = dict(dim=r.choice([1, 2]), order=r.choice([1, 1, 2, 3]))
        if r.random() < 0.5:
            c.update(index=r.choice([1, 5, 30]), regularize=r.choice([0.1, 0.5, 0.01]))
        return c

    def make(self, lib, c):
        return lib.GaussianMixtureModel(**{k: c[k] for k in ("order", "index", "regularize") if k in c})

    def data(self, r, c):
        s = super().data(r, c)
        s["random"] = r.randrange(1 << 30)
        return s

    def fit(self, inst, spec):
        numpy.random.seed(spec.get("random", 0) % (1 << 32))
        inst.fit(*labelled(spec))

    def draw_set(self, r, c):
        return ["index", r.choice([1, 3, 20])] if r.random() < 0.4 else super().draw_set(r, c)

    def bad_settings(self, r, c):
        return [["set", "regularize", -0.1], ["set", "index", 0], ["set", "index", -3]]

    def read(self, inst):
        return dict(regularize=inst.regularize, shape=inst.shape, index=inst.index, order=inst.order)


# -- components without memory ---------------------------------------------------------------

class Static(Kind):
    """A component whose results depend on its settings and arguments only."""

    streaming = False

    def bad(self, r, c):
        return [["signal", "empty-list"], ["signal", "empty-array"], ["signal", "cube"]] + self.bad_settings(r, c)

    def do_bad(self, inst, b):
        if b[0] == "signal" and b[1] == "cube":
            return self.given(inst, numpy.ones((2, 2, 2)) * 0.5, {})
        if b[0] == "signal":
            return self.given(inst, [] if b[1] == "empty-list" else numpy.zeros(0), {})
        return super().do_bad(inst, b)

    def arguments(self, spec):
        """The arrays given to one call, by name."""
        return dict(x=piece(spec)[0])

    def call(self, inst, args, spec):
        y = self.given(inst, args["x"], spec)
        return list(y) if isinstance(y, tuple) else [y]

    def apply(self, inst, op):
        if op[0] == "x":
            return self.call(inst, self.arguments(op[1]), op[1])
        return super().apply(inst, op)

    def draw_op(self, r, c, n=None):
        if self.settings and r.random() < 0.2:
            return ["set", *self.draw_set(r, c)]
        return ["x", self.draw(r, c, n or r.choice([2, 3, 5, 8, 20, 60]))]

    def read(self, inst):
        return {} if isinstance(inst, type) else super().read(inst)


class Window(Static):
    name, cls = "window", "WindowFilter"

    def cfg(self, r):
        return dict(style=r.choice(["Blackman", "hamming", "Hann", "KAISER"]), order=r.choice([1, 2, 3, 7, 15, 31]), normal=r.random() < 0.5)

    def make(self, lib, c):
        return lib.WindowFilter(c["style"], c["order"], c["normal"])

    def comp(self, c):
        return "both"

    def draw(self, r, c, n, fresh=True):
        return super().draw(r, c, c["order"] + 1)

    def given(self, inst, x, spec):
        return inst.filter(x)

    def bad(self, r, c):
        return super().bad(r, c) + [["signal", "matrix"], ["signal", "long"]]

    def do_bad(self, inst, b):
        if b[1] == "long":
            return inst.filter(numpy.ones(len(inst.b) + 1))
        if b[1] == "matrix":
            return inst.filter(numpy.ones((len(inst.b), 2)))
        return super().do_bad(inst, b)


class Polynomial(Static):
    name, cls, settings = "polynomial", "PolynomialRateFilter", ("rate", "order")

    def cfg(self, r):
        return dict(rate=r.choice([1.0, 0.5, 2.0, 1.37, 3.3, 0.71]), order=r.choice([1, 1, 2, 3]))

    def make(self, lib, c):
        return lib.PolynomialRateFilter(c["rate"], c["order"])

    def draw(self, r, c, n, fresh=True):
        return super().draw(r, c, max(2, min(n, 20)))

    def given(self, inst, x, spec):
        return inst.filter(x)

    def draw_set(self, r, c):
        return ["rate", r.choice([1.0, 0.5, 2.0, 0.9, 2.9])] if r.random() < 0.5 else ["order", r.choice([1, 2, 3])]

    def bad_settings(self, r, c):
        return [["set", "rate", -0.1], ["set", "order", 0], ["set", "order", -2], ["signal", "matrix"], ["signal", "short"]]

    def do_bad(self, inst, b):
        if b[1] == "short":
            return inst.filter([1.0])
        return super().do_bad(inst, b)


class Fourier(Static):
    name, cls = "fourier", "FourierTransform"

    def make(self, lib, c):
        return lib.FourierTransform

    def comp(self, c):
        return "both"

    def draw(self, r, c, n, fresh=True):
        s = super().draw(r, c, n)
        m = r.randrange(max(1, n - 2), n + 1)
        s["b"], s["aslist"], s["inverse"] = [round(r.uniform(0.1, 1), 3) for _ in range(m)], r.random() < 0.3, r.random() < 0.4
        if m > 3 and r.random() < 0.4:
            s["b"][0] = s["b"][-1] = 0.0
        return s

    def arguments(self, spec):
        return dict(x=piece(spec)[0], b=spec["b"] if spec.get("aslist") else numpy.array(spec["b"]))

    def call(self, inst, args, spec):
        return list(inst.transform(args["x"], args["b"], spec["inverse"]))

    def given(self, inst, x, spec):
        return inst.transform(x, [0.5, 0.5])

    def bad(self, r, c):
        return [["signal", "empty-list"], ["signal", "empty-array"], ["signal", "long"], ["signal", "zero"]]

    def do_bad(self, inst, b):
        if b[1] == "long":
            return inst.transform(numpy.ones(3), numpy.ones(4))
        if b[1] == "zero":
            return inst.transform(numpy.ones(3), numpy.zeros(3))
        return super().do_bad(inst, b)


class Psd(Fourier):
    name, cls = "psd", "PsdTransform"

    def make(self, lib, c):
        return lib.PsdTransform

    def draw(self, r, c, n, fresh=True):
        n = max(n, 3)
        s = super().draw(r, c, n)
        s["b"] = [round(r.uniform(0.1, 1), 3) for _ in range(r.randrange(2, n + 1))]
        s["index"], s["spectrogram"] = r.randrange(1, len(s["b"]) + 1), r.random() < 0.3
        return s

    def call(self, inst, args, spec):
        return list(inst.transform(args["x"], args["b"], spec["index"], spec["spectrogram"]))

    def given(self, inst, x, spec):
        return inst.transform(x, [0.5, 0.5], 1)

    def do_bad(self, inst, b):
        if b[1] == "long":
            return inst.transform(numpy.ones(3), numpy.ones(4), 1)
        if b[1] == "zero":
            return inst.transform(numpy.ones(3), numpy.zeros(3), 1)
        return super().do_bad(inst, b)


class Phases(Static):
    name, cls = "phases", "ComplexTransform"

    def make(self, lib, c):
        return lib.ComplexTransform

    def draw(self, r, c, n, fresh=True):
        s = super().draw(r, c, n)
        if r.random() < 0.5:
            s.update(kind="noise", rows=3, form="array")
        else:
            s["complex"], s["form"] = True, r.choice(FORMS)
        s["neutral"] = r.random() < 0.5
        return s

    def arguments(self, spec):
        if spec.get("rows"):
            g = numpy.random.Generator(numpy.random.PCG64(spec["seed"]))
            return dict(x=g.standard_normal((3, spec["n"])) * spec["scale"])
        return dict(x=piece(spec)[0])

    def given(self, inst, x, spec):
        return inst.transform(x, spec.get("neutral", True))


class Wavelet(Static):
    name, cls = "wavelet", "WaveletTransform"

    def cfg(self, r):
        style, order = r.choice([("Haar", 1), ("Daubechies", 3), ("Daubechies", 5), ("Coiflet", 5), ("Symmlet", 9)])
        return dict(style=style, order=order)

    def make(self, lib, c):
        return lib.WaveletTransform(c["style"], c["order"])

    def draw(self, r, c, n, fresh=True):
        n = r.choice([1, 2, 3])
        return dict(count=n, rows=r.choice([0, 1, 2]) and 2**n, cols=2**n * r.randrange(1, 4), inverse=r.random() < 0.4, seed=r.randrange(1 << 30), scale=r.choice([1.0, 100.0]), form=r.choice(["array", "list", "fortran", "readonly"]))

    def arguments(self, spec):
        g = numpy.random.Generator(numpy.random.PCG64(spec["seed"]))
        x = g.standard_normal((spec["rows"], spec["cols"]) if spec["rows"] else spec["cols"]) * spec["scale"]
        return dict(x=argument(spec, x))

    def given(self, inst, x, spec):
        return inst.transform(x, spec.get("count", 1), spec.get("inverse", False))

    def bad(self, r, c):
        return super().bad(r, c) + [["signal", "count"], ["signal", "length"]]

    def do_bad(self, inst, b):
        if b[1] == "count":
            return inst.transform(numpy.ones(4), 0)
        if b[1] == "length":
            return inst.transform(numpy.ones(6), 2)
        return super().do_bad(inst, b)

    def read(self, inst):
        return {f"b{i}{j}": numpy.array(inst.b[i][j]) for i in range(2) for j in range(2)}


class Zed(Static):
    name, cls = "zed", "ZTransform"

    def make(self, lib, c):
        return lib.ZTransform

    def draw(self, r, c, n, fresh=True):
        n = r.choice([1, 2, 3])
        u = numpy.poly([-round(r.uniform(0.2, 3.0), 3) for _ in range(n)])
        return dict(u=([0.0] * r.choice([0, 0, 1])) + [float(x) for x in u], v=([0.0] * r.choice([0, 0, 1])) + [round(r.uniform(0.1, 2), 3) for _ in range(r.choice([1, 1, n]))], frequency=round(r.uniform(0.1, 2), 3), bilinear=r.random() < 0.6, aslist=r.random() < 0.3)

    def arguments(self, spec):
        return {k: spec[k] if spec["aslist"] else numpy.array(spec[k]) for k in ("u", "v")}

    def call(self, inst, args, spec):
        return list(inst.transform(args["u"], args["v"], spec["frequency"], spec["bilinear"]))

    def bad(self, r, c):
        return [["signal", "empty"], ["signal", "zero"], ["signal", "frequency"]]

    def do_bad(self, inst, b):
        if b[1] == "empty":
            return inst.transform([], [1.0], 1.0)
        if b[1] == "zero":
            return inst.transform([1.0, 0.5], numpy.zeros(2), 1.0)
        return inst.transform([1.0, 0.5], [1.0], 0.0)


STATICS = [Window(), Polynomial(), Fourier(), Psd(), Phases(), Wavelet(), Zed()]
STREAMS = [Fir(), Iir(), Derivative(), Integral(), Goertzel(), Pid(), Rank(), Exponential(), Bandpass(), Frequency(), Polyphase()]
MODELS = [Diversity(), Gaussian(), Mixture()]
KINDS = {k.name: k for k in STREAMS + MODELS + STATICS}


def kind(name):
    if name not in KINDS:
        raise InvalidPlan(name)
    return KINDS[name]


def compare(k, got, want, where, name="output", tol=None, doubt=None, scale=None):
    """Outputs agree to a tolerance relative to their scale."""
    angle = k.name == "frequency"
    if isinstance(got, Asked) and isinstance(want, Asked):
        got, want, scale, angle = got.view(), want.view(), None, False
    check(len(got) == len(want), name, f"{where}: {len(got)} outputs instead of {len(want)}")
    for i, (a, b) in enumerate(zip(got, want)):
        a, b = numpy.asarray(a), numpy.asarray(b)
        check(a.shape == b.shape, name, lambda: f"{where}: output {i} has shape {a.shape} instead of {b.shape}")
        if doubt is not None and len(doubt) == len(a) and any(doubt):
            m = ~numpy.array(doubt)
            a, b = a[m], b[m]
        if angle and i == 0:  # an angle, of a coefficient which may vanish
            w = abs(numpy.asarray(want[2]))
            w = w[m] if doubt is not None and len(doubt) == len(w) and any(doubt) else w
            a, b = w * numpy.exp(1j * math.pi * a), w * numpy.exp(1j * math.pi * b)
        check(kit.close(a, b, tol or k.tol, scale), name, lambda: f"{where}: output {i}: {kit.worst(a, b)}")


def magnitude(arrays):
    """The largest finite value, for the scale of a comparison."""
    if isinstance(arrays, Asked):
        return 0.0
    m = 0.0
    for a in arrays:
        a = numpy.abs(numpy.asarray(a))
        a = a[numpy.isfinite(a)]
        if a.size:
            m = max(m, float(a.max()))
    return m


def joined(outputs):
    """Concatenates the outputs of consecutive calls."""
    outputs = [o for o in outputs if o]
    return [numpy.concatenate([o[i] for o in outputs]) for i in range(len(outputs[0]))] if outputs else []


def same_read(k, a, b, where, tol=1e-9, only=None):
    """Everything readable agrees."""
    a, b = k.read(a) if not isinstance(a, dict) else a, k.read(b) if not isinstance(b, dict) else b
    check(sorted(a) == sorted(b), "settings", f"{where}: {sorted(a)} instead of {sorted(b)}")
    for n in sorted(a):
        if only is not None and n not in only:
            continue
        u, v = a[n], b[n]
        if isinstance(u, str) or isinstance(v, str) or u is None or v is None:
            good = u == v
        elif isinstance(u, tuple) and isinstance(v, tuple):
            good = len(u) == len(v) and all(kit.close(x, y, tol) for x, y in zip(u, v))
        else:
            try:
                good = kit.close(numpy.asarray(u), numpy.asarray(v), tol)
            except TypeError:
                good = False
        check(good, "settings", lambda: f"{where}: {n} is {u!r} instead of {v!r}")


def same_outputs(k, a, b, where, name="output", tol=1e-9, scale=None):
    compare(k, a, b, where, name, tol, None, scale)


def quiet():
    """Components may overflow or meet not-a-number; that is for the checks to judge."""
    numpy.seterr(all="ignore")
