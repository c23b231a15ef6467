"""C11: a damaged encoding decodes to the original or not at all."""

import time

from sim import kit, runtime, values, zoo
from sim.kit import InvalidPlan, check

ID = "C11"
RUNS = dict(quick=24000, thorough=3000000)
SHRINK_LISTS = ("damage", "v", "ops")
RULE = ("A run encodes two drawn instances with compression at a drawn clock (a quarter of them large), damages the first encoding 1 to 3 times as storage and transfer do - truncation at any byte, changed, lost, inserted and exchanged characters, bit flips, zeroed, lost, repeated and exchanged blocks, a torn write over an older encoding, appended text or another encoding - "
        "and decodes it in a new process at another clock; the undamaged text is decoded first, by the same process, for comparison; every run injects a fault; distinct by digest of the event log.")
STATE = "distinct (kind of instance, kinds of damage, where in the text, outcome)"
REAL = ["diamondback.commons.serial, pickle, gzip, zlib, base64", "all components"]
STUB = ["process start (modules executed anew)", "clock", "storage (damage injected into the text)"]
ASSUMPTIONS = ["compressed encodings; plain ones carry no check sum", "a text left as another complete encoding, except for its header and padding, is that encoding", "damage does not by chance preserve a 32 bit check sum", "a damaged text is never one that somebody crafted"]
DAMAGE = ("truncate", "head", "change", "flip", "lose", "insert", "swap", "zero", "fill", "drop-block", "repeat-block", "move-block", "torn", "append", "append-other", "prepend", "splice", "case", "raw")
PROBES = DAMAGE + ("rejected", "original", "collection", "component", "large")


def prepare():
    runtime.fast_design()
    zoo.quiet()


def generate(r, tier):
    specs = [draw_spec(r) for _ in range(2)]
    if r.random() < 0.15:  # an older version of the same instance
        specs[1] = specs[0]
    damage = [[r.choice(DAMAGE), r.random(), r.random(), r.randrange(1 << 30)] for _ in range(r.choice([1, 1, 1, 2, 3]))]
    return dict(specs=specs, damage=damage, clock=[float(r.randrange(0, 1 << 32)) for _ in range(3)], edge=r.random() < 0.25)


def draw_spec(r):
    k = r.random()
    if k < 0.006:
        return dict(t="array", seed=r.randrange(1 << 30), dtype="float64", shape=[r.choice([9000, 40000])], form="C")
    if k < 0.1:
        return dict(t="array", seed=r.randrange(1 << 30), dtype=r.choice(["float64", "int64", "float32"]), shape=[r.choice([300, 2000])], form="C")
    while True:
        s = values.draw(r, component=0.35)
        if s["t"] not in ("none", "bool", "set"):
            return s


ALPHABET = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~"


def spoil(text, other, how, a, b, seed):
    """The damaged text."""
    import base64
    import random

    r, n = random.Random(seed), len(text)
    if not n:
        return text
    i = min(n - 1, int(a * n))
    j = min(n, i + 1 + int(b * b * min(n, 200)))
    if how == "truncate":
        return text[:i]
    if how == "head":
        return text[i:]
    if how == "change":
        return text[:i] + r.choice(ALPHABET) + text[i + 1 :]
    if how == "flip":
        return text[:i] + chr(ord(text[i]) ^ (1 << r.randrange(7))) + text[i + 1 :]
    if how == "lose":
        return text[:i] + text[i + 1 :]
    if how == "insert":
        return text[:i] + r.choice(ALPHABET) + text[i:]
    if how == "swap":
        return text[:i] + text[i + 1 : i + 2] + text[i] + text[i + 2 :]
    if how == "zero":
        return text[:i] + "\0" * (j - i) + text[j:]
    if how == "fill":
        return text[:i] + r.choice("0~ \n") * (j - i) + text[j:]
    if how == "drop-block":
        return text[:i] + text[j:]
    if how == "repeat-block":
        return text[:j] + text[i:j] + text[j:]
    if how == "move-block":
        k = r.randrange(n)
        rest = text[:i] + text[j:]
        return rest[:k] + text[i:j] + rest[k:]
    if how == "torn":  # the new text was written over the older one, up to some byte
        return text[:i] + other[i:]
    if how == "append":
        return text + "".join(r.choice(ALPHABET) for _ in range(r.choice([1, 4, 5, 10, 20])))
    if how == "append-other":
        return text + other
    if how == "prepend":
        return other + text
    if how == "splice":
        k = min(len(other), int(b * len(other)))
        return text[:i] + other[k:]
    if how == "case":
        return text[:i] + text[i:j].swapcase() + text[j:]
    if how == "raw":  # bytes changed before they were written as text
        try:
            u = bytearray(base64.b85decode(text))
        except ValueError:
            return text[:i]
        if not u:
            return text
        k = min(len(u) - 1, int(a * len(u))) if r.random() < 0.7 else r.randrange(min(len(u), 12))
        m = r.randrange(5)
        if m == 0:
            u[k] ^= 1 << r.randrange(8)
        elif m == 1:
            u[k] = r.randrange(256)
        elif m == 2:
            del u[k:]
        elif m == 3:
            u[k:k + 4] = bytes(len(u[k:k + 4]))
        else:
            u += bytes(r.choice([1, 3, 4, 8]))
        return base64.b85encode(bytes(u)).decode()
    raise InvalidPlan(how)


def content(text):
    """What a compressed encoding holds apart from the fixed header and padding."""
    import base64

    try:
        return base64.b85decode(text)[10:].rstrip(b"\0")
    except ValueError:
        return text


def execute(plan, ctx):
    real, clock = time.time, [plan["clock"][0]]
    writer, reader = runtime.Process(), runtime.Process()
    time.time = lambda: clock[0]
    try:
        texts = []
        with writer:
            for k, s in enumerate(plan["specs"]):
                texts.append(writer.Serial.encode(values.make(writer, s)))
                clock[0] = plan["clock"][k + 1]
        text, other = texts
        kinds = []
        for i, (how, a, b, seed) in enumerate(plan["damage"]):
            if plan["edge"]:
                a = [a * 0.02, 1.0 - a * 0.05][seed & 1]
            text = spoil(text, other, how, a, b, seed)
            kinds.append(how)
            ctx.fault(how)
        spec = plan["specs"][0]
        ctx.stat("component" if spec["t"] == "component" else "collection")
        if len(texts[0]) > 3000:
            ctx.stat("large")
        where = f"{spec['t']} {spec.get('kind', '')} encoded in {len(texts[0])} characters, damaged by {kinds} to {len(text)} characters"
        with reader:
            try:
                want = reader.Serial.decode(texts[0])
            except Exception as ex:
                check(False, "undamaged", f"{where}: the undamaged text was not decoded: {type(ex).__name__}: {ex}")
            try:
                got, error = reader.Serial.decode(text), None
            except Exception as ex:  # includes failing allocations
                got, error = None, type(ex).__name__
            if error is None:
                d = values.difference(spec, got, want)
                if d is not None and content(text) == content(other):
                    # All of the other encoding, except its header and padding, is there and nothing else: that is its instance.
                    ctx.stat("other")
                    if values.difference(plan["specs"][1], got, reader.Serial.decode(other)) is None:
                        d = None
                check(d is None, "different", lambda: f"{where}, was decoded to something else: {d}")
        ctx.stat("rejected" if error else "original")
        ctx.event(kinds, len(text), "raised" if error else "original")
        ctx.state(spec.get("kind", spec["t"]), kinds, int(plan["damage"][0][1] * 4) if plan["damage"] else 0, bool(error))
    finally:
        time.time = real
