"""Seeded randomness, comparison, digests and the run context.

Every run of a check is a pure function of its plan (a JSON value) and the code in
/repo.  The plan itself is a pure function of (VERIF_SEED, check, run index).
"""

import hashlib
import json
import math
import random

import numpy


class Violation(Exception):
    """The property is broken in this run."""

    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind, self.message = kind, str(message)[:2000]


class InvalidPlan(Exception):
    """A (shrunk) plan makes no sense; never an outcome of a generated plan."""


class Hang(BaseException):
    """The run used up its processor time."""


def rng_for(seed, *labels):
    text = "/".join([str(seed), *map(str, labels)])
    return random.Random(int.from_bytes(hashlib.sha256(text.encode()).digest()[:16], "big"))


class Context:
    """Collects what one run did; nothing in here draws randomness or reads a clock."""

    def __init__(self, trace=False):
        self.hash = hashlib.sha256()
        self.stats, self.faults, self.states = {}, {}, set()
        self.simtime, self.steps, self.nontrivial = 0.0, 0, False
        self.events = [] if trace else None
        self.switches = None

    def event(self, *what):
        text = repr(what)
        self.hash.update(text.encode("utf-8", "backslashreplace"))
        if self.events is not None:
            self.events.append(text)

    def values(self, name, y):
        """Record numeric output in the run's digest."""
        self.hash.update(name.encode())
        if isinstance(y, numpy.ndarray):
            self.hash.update(str(y.shape).encode() + str(y.dtype).encode() + y.tobytes())
        else:
            self.hash.update(repr(y).encode("utf-8", "backslashreplace"))
        if self.events is not None:
            self.events.append(f"{name} {hashlib.sha256(repr(y).encode()).hexdigest()[:12]}")

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n
        self.nontrivial = True

    def state(self, *what):
        self.states.add(hashlib.sha256(repr(what).encode()).hexdigest()[:12])

    def digest(self):
        return self.hash.hexdigest()[:24]


def check(condition, kind, message=""):
    if not condition:
        raise Violation(kind, message() if callable(message) else message)


def same(a, b, tol=0.0, scale=None):
    """Deep equality of instances: arrays by type, shape and value, NaN equal to NaN."""
    if a is b:
        return True
    if isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        if not (isinstance(a, numpy.ndarray) and isinstance(b, numpy.ndarray)):
            return False
        if a.shape != b.shape or (not tol and a.dtype != b.dtype):
            return False
        if a.dtype == object:
            return all(same(u, v, tol) for u, v in zip(a.ravel(), b.ravel()))
        if not tol or a.dtype.kind not in "fc":
            if a.dtype.kind in "fc":
                return bool(numpy.array_equal(a, b, equal_nan=True))
            return bool(numpy.array_equal(a, b))
        return close(a, b, tol)
    if isinstance(a, (bool, numpy.bool_)) or isinstance(b, (bool, numpy.bool_)):
        return type(a) is type(b) and a == b
    if isinstance(a, (float, complex, numpy.number)) or isinstance(b, (float, complex, numpy.number)):
        if not tol and type(a) is not type(b):
            return False
        try:
            return bool(a == b) or (a != a and b != b) or (bool(tol) and abs(a - b) <= tol * max(1.0, abs(a)))
        except TypeError:
            return False
    if type(a).__name__ != type(b).__name__:
        return False
    if isinstance(a, dict):
        return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(u, v, tol) for u, v in zip(a, b))
    if isinstance(a, (set, frozenset)):
        return a == b
    if hasattr(a, "equals") and hasattr(a, "dtypes"):
        return bool(a.equals(b)) and list(a.columns) == list(b.columns) and same(list(a.index), list(b.index))
    if callable(a) and callable(b) and getattr(a, "__qualname__", 0) == getattr(b, "__qualname__", 1):
        return True
    if hasattr(a, "__dict__") and type(a).__module__.startswith(("diamondback", "sklearn", "sim", "checks")):
        return same(dict(sorted(vars(a).items())), dict(sorted(vars(b).items())), tol)
    try:
        return bool(a == b)
    except Exception:
        return False


def close(a, b, tol=1e-8, scale=None):
    """Arrays equal to within tol relative to the scale of the signals."""
    a, b = numpy.asarray(a), numpy.asarray(b)
    if a.shape != b.shape:
        return False
    if not a.size:
        return True
    with numpy.errstate(all="ignore"):
        bad = ~(numpy.isfinite(a) & numpy.isfinite(b))
        if bad.any():
            if not numpy.array_equal(numpy.isnan(a[bad]), numpy.isnan(b[bad])):
                return False
            m = bad & ~numpy.isnan(a)
            if not numpy.array_equal(a[m], b[m]):
                return False
        a, b = a[~bad], b[~bad]
        if not a.size:
            return True
        s = max(1e-300, float(numpy.max(numpy.abs(b))), float(numpy.max(numpy.abs(a))), 0.0 if scale is None else scale)
        return float(numpy.max(numpy.abs(a - b))) <= tol * s


def worst(a, b):
    a, b = numpy.asarray(a), numpy.asarray(b)
    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape}"
    if not a.size:
        return "empty"
    with numpy.errstate(all="ignore"):
        d = numpy.abs(a - b)
        d = numpy.where(numpy.isnan(d), numpy.inf, d)
    k = int(numpy.argmax(d))
    return f"index {k}: {a.ravel()[k]!r} instead of {b.ravel()[k]!r}"


def signal(spec):
    """Realises a signal specification: every signal in a plan is a small dictionary."""
    kind, n = spec["kind"], int(spec["n"])
    if n < 1:
        raise InvalidPlan("n")
    g = numpy.random.Generator(numpy.random.PCG64(spec.get("seed", 0)))
    scale, comp = spec.get("scale", 1.0), spec.get("complex", False)
    if kind == "noise":
        x = g.standard_normal(n) + (1j * g.standard_normal(n) if comp else 0.0)
    elif kind == "const":
        x = numpy.ones(n) * (complex(0.6, -0.8) if comp else 1.0)
    elif kind == "step":
        x = numpy.where(numpy.arange(n) < n // 3, 0.25, 1.0) * ((1 + 0.5j) if comp else 1.0)
    elif kind == "tone":
        p = math.pi * (spec["f"] * numpy.arange(n) + spec.get("phase", 0.0))
        x = numpy.exp(1j * p) if comp else numpy.cos(p)
    elif kind == "ramp":
        x = (numpy.arange(n) - n / 2.0) / 8.0 * ((1 - 1j) if comp else 1.0)
    elif kind == "sparse":
        x = numpy.where(g.random(n) < 0.15, g.standard_normal(n), 0.0) * ((1 + 1j) if comp else 1.0)
    elif kind == "int":
        x = g.integers(-9, 10, n).astype(float) + (1j * g.integers(-9, 10, n) if comp else 0.0)
    elif kind == "uniform":
        x = g.uniform(-1.0, 1.0, n) + 0.0
    else:
        raise InvalidPlan(kind)
    return numpy.asarray(x * scale)


def draw_signal(r, n, comp=False, kinds=("noise", "noise", "noise", "const", "step", "tone", "ramp", "sparse", "int")):
    kind = r.choice(kinds)
    s = dict(kind=kind, n=n, seed=r.randrange(1 << 30), scale=r.choice([1.0, 1.0, 1.0, 1e-3, 37.5, 1e4]))
    if kind == "tone":
        s["f"], s["phase"] = round(r.uniform(-0.9, 0.9), 4), round(r.uniform(-1, 1), 4)
    if comp:
        s["complex"] = True
    return s


def draw_split(r, n, limit=None):
    """A division of n samples into pieces; biased to tiny pieces and odd boundaries."""
    mode, out, left = r.randrange(5), [], n
    while left > 0:
        if mode == 0:
            k = 1
        elif mode == 1:
            k = r.randrange(1, 4)
        elif mode == 2:
            k = r.randrange(1, max(2, n // 3))
        elif mode == 3:
            k = r.choice([1, 1, 2, max(1, n // 2)])
        else:
            k = r.choice([1, 2, 3, 5, 8, 13, 21])
        k = min(k, left)
        out.append(k)
        left -= k
    return out


def plain(x):
    """JSON with a stable layout."""
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def array_digest(x):
    x = numpy.asarray(x)
    return (x.shape, str(x.dtype), hashlib.sha256(x.tobytes() if x.dtype != object else repr(x).encode()).hexdigest())
