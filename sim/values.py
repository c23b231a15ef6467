"""Values of every kind a user may encode, as small specifications."""

import datetime
import math

import numpy

from sim import kit, zoo
from sim.kit import InvalidPlan

TEXTS = ["", "a", "orange", "Größe", "日本語", "\x00\x01", "line\nbreak\r\n", "\ud7ff", "𝔘", "'\"\\", "x" * 300]


def draw(r, depth=0, component=0.15):
    k = r.random()
    if depth < 3 and k < 0.35:
        t = r.choice(["list", "list", "tuple", "dict", "dict"])
        v = [draw(r, depth + 1, component) for _ in range(r.choice([0, 1, 2, 3, 4]))]
        if t == "dict":
            v = [[r.choice([["text", r.choice(TEXTS) + str(i)], ["int", i * 17], ["pair", i]]), x] for i, x in enumerate(v)]
        return dict(t=t, v=v)
    if k < 0.35 + component:
        kind = r.choice(zoo.STREAMS + zoo.MODELS + [zoo.KINDS["window"], zoo.KINDS["polynomial"], zoo.KINDS["wavelet"]])
        c = kind.cfg(r)
        return dict(t="component", kind=kind.name, cfg=c, ops=[kind.draw_op(r, c) for _ in range(r.choice([0, 1, 2]))])
    t = r.choice(["none", "bool", "int", "big", "float", "special", "complex", "text", "text", "bytes", "set", "array", "array", "array", "array", "number", "frame", "time", "range", "shared"])
    s = dict(t=t, seed=r.randrange(1 << 30))
    if t == "text":
        s["v"] = r.choice(TEXTS)
    if t == "array":
        s["dtype"] = r.choice(["float64", "float64", "float32", "complex128", "int64", "int8", "uint16", "bool", "U5", "S3", "object"])
        s["shape"] = r.choice([[0], [1], [5], [40], [3, 4], [2, 3, 4], [0, 3], [], [7, 1]])
        s["form"] = r.choice(["C", "C", "F", "view", "readonly", "nan"])
    if t == "shared":
        s["v"] = draw(r, 2, component)
    return s


def make(lib, s):
    t = s["t"]
    if t == "component":
        k = zoo.kind(s["kind"])
        inst = k.make(lib, s["cfg"])
        for op in s["ops"]:
            k.apply(inst, op)
        return inst
    if t == "list":
        return [make(lib, v) for v in s["v"]]
    if t == "tuple":
        return tuple(make(lib, v) for v in s["v"])
    if t == "dict":
        return {(k[1] if k[0] != "pair" else (k[1], "p")): make(lib, v) for k, v in s["v"]}
    if t == "shared":
        v = make(lib, s["v"])
        return [v, v]
    g = numpy.random.Generator(numpy.random.PCG64(s["seed"]))
    if t == "none":
        return None
    if t == "bool":
        return bool(s["seed"] & 1)
    if t == "int":
        return int(g.integers(-1000, 1000))
    if t == "big":
        return (1 << int(g.integers(60, 900))) * (-1) ** s["seed"] + s["seed"]
    if t == "float":
        return float(g.standard_normal())
    if t == "special":
        return [math.nan, math.inf, -math.inf, -0.0, 5e-324, 1.7976931348623157e308][s["seed"] % 6]
    if t == "complex":
        return complex(g.standard_normal(), g.standard_normal())
    if t == "text":
        return s["v"]
    if t == "bytes":
        return g.bytes(int(g.integers(0, 400)))
    if t == "set":
        return [set, frozenset][s["seed"] & 1](int(x) for x in g.integers(0, 50, 5))
    if t == "number":
        return [numpy.float64(0.25), numpy.float32(1.5), numpy.int64(-3), numpy.complex128(1 - 2j), numpy.uint8(7)][s["seed"] % 5]
    if t == "frame":
        import pandas

        return pandas.DataFrame(dict(fruit=["orange", "apple", "kiwi"], value=g.standard_normal(3), count=[1, 2, s["seed"]]))
    if t == "time":
        return datetime.datetime(2026, 3, 1, 12, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=s["seed"])
    if t == "range":
        return range(s["seed"] % 7, 100, 3)
    if t == "array":
        x = g.standard_normal(s["shape"]) * 50
        d = s["dtype"]
        if d == "complex128":
            x = x + 1j * g.standard_normal(s["shape"])
        elif d == "object":
            y = numpy.empty(s["shape"], object)
            for i in numpy.ndindex(*s["shape"]):
                y[i] = [None, "t", 3, 2.5][int(abs(x[i])) % 4]
            x = y
        elif d[0] in "US":
            x = numpy.asarray(numpy.round(x).astype(int)).astype(d)
        elif d in ("int8", "uint16"):
            x = numpy.asarray(numpy.abs(numpy.round(x))).clip(0, 100).astype(d)
        else:
            x = numpy.asarray(x).astype(d)
        f = s["form"]
        if f == "F":
            x = numpy.asfortranarray(x)
        elif f == "view" and x.ndim:
            x = numpy.repeat(x, 2, axis=0)[::2]
        elif f == "nan" and x.dtype.kind == "f" and x.size:
            x.flat[0] = math.nan
        elif f == "readonly":
            x = numpy.array(x)
            x.flags.writeable = False
        return x
    raise InvalidPlan(t)


def difference(s, a, b):
    """None if a equals b, which was made from s, else where they differ."""
    t = s["t"]
    if t == "component":
        k = zoo.kind(s["kind"])
        if type(a).__name__ != type(b).__name__:
            return f"{type(a).__name__} instead of {type(b).__name__}"
        try:
            zoo.same_read(k, a, b, k.name)
        except kit.Violation as v:
            return v.message
        return None
    if t in ("list", "tuple", "shared"):
        if type(a) is not type(b) or len(a) != len(b):
            return f"{a!r:.80} instead of {b!r:.80}"
        if t == "shared":
            return difference(s["v"], a[0], b[0]) or (None if a[0] is a[1] or isinstance(b[0], (int, float, str, bytes, complex, tuple, frozenset, numpy.number, type(None))) else "one object became two")
        return next((d for d in (difference(u, x, y) for u, x, y in zip(s["v"], a, b)) if d), None)
    if t == "dict":
        if type(a) is not dict or list(a) != list(b):
            return f"{a!r:.80} instead of {b!r:.80}"
        return next((d for d in (difference(u, x, y) for (_, u), x, y in zip(s["v"], a.values(), b.values())) if d), None)
    return None if kit.same(a, b) else f"{a!r:.100} instead of {b!r:.100}"
