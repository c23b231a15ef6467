"""C12: a component restored from its last durable checkpoint continues as if nothing had happened."""

import time

from sim import kit, runtime, zoo
from sim.kit import check

ID = "C12"
RUNS = dict(quick=9000, thorough=900000)
SHRINK_LISTS = ("ops", "parts", "crashes", "points")
RULE = ("A run feeds 1 to 3 components of drawn kinds up to 30 operations each (pieces of signals, resets, setting changes, fits, predictions, refused calls) in a process which writes checkpoints to simulated storage of two alternating slots at drawn points, and crashes 1 to 4 times at drawn points: between operations, before, during (torn at any byte, possibly over an older checkpoint) or after the write of a checkpoint; "
        "a new process restores the newest checkpoint which decodes, and replays from there; every output and readable setting is compared with a process that never crashed and never took a checkpoint; distinct by digest of the event log.")
STATE = "distinct (kind, operation before the crash, operation after it, distance replayed, torn, compressed)"
REAL = ["all filters and models", "diamondback.commons.serial, pickle, gzip", "numpy, scipy, scikit-learn"]
STUB = ["process start and crash (modules executed anew)", "storage", "clock"]
ASSUMPTIONS = ["outputs agree to 1e-9 of the largest value so far", "a checkpoint torn in its write is compressed, so that it is recognised (C11)", "a randomised fit is replayed with the same state of the random generator"]
PROBES = tuple(k.name for k in zoo.STREAMS + zoo.MODELS) + ("crash", "torn", "replayed", "plain", "compressed", "from-nothing", "second-crash")


def prepare():
    runtime.fast_design()
    zoo.quiet()


def generate(r, tier):
    parts = []
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.choice(zoo.STREAMS + zoo.MODELS)
        c = k.cfg(r)
        ops = []
        for _ in range(r.choice([3, 6, 12, 30]) if k.streaming else r.choice([3, 6, 10])):
            if r.random() < 0.06:
                ops.append(["bad", r.choice(k.bad(r, c))])
            else:
                ops.append(k.draw_op(r, c))
        parts.append(dict(kind=k.name, cfg=c, ops=ops))
    n = max(len(p["ops"]) for p in parts)
    points = sorted(r.sample(range(n + 1), min(n + 1, r.choice([1, 1, 2, 3, 5]))))
    crashes = [dict(at=r.randrange(1, n + 1), torn=r.random() < 0.4, cut=r.random()) for _ in range(r.choice([1, 1, 2, 4]))]
    return dict(parts=parts, points=points, crashes=sorted(crashes, key=lambda c: c["at"]), compress=r.random() < 0.7, old=r.random() < 0.5)


class Storage:
    """Two slots written in turn; a write in progress at a crash is torn."""

    def __init__(self):
        self.slots, self.turn = [None, None], 0

    def write(self, value, cut=None, over=False):
        i, self.turn = self.turn, 1 - self.turn
        if cut is not None:
            at, texts = value
            texts = list(texts)
            k = int(cut * len(texts)) if texts else 0
            if k < len(texts):
                t = texts[k]
                j = int((cut * len(texts) - k) * len(t))
                rest = ""
                if over and self.slots[i] and k < len(self.slots[i][1]):
                    rest = self.slots[i][1][k][j:]
                texts[k] = t[:j] + rest
                texts[k + 1 :] = self.slots[i][1][k + 1 :] if over and self.slots[i] else []
            self.slots[i] = (at, texts, True)
            return
        self.slots[i] = (*value, False)

    def newest(self):
        return sorted((s for s in self.slots if s), key=lambda s: -s[0])


def execute(plan, ctx):
    parts = plan["parts"]
    kinds = [zoo.kind(p["kind"]) for p in parts]
    for p in parts:
        ctx.stat(p["kind"])
    n = max((len(p["ops"]) for p in parts), default=0)
    shadow, expected, scales = runtime.Process(), [], []
    reads = []
    with shadow:
        for k, p in zip(kinds, parts):
            inst, out, rd, m, sc = k.make(shadow, p["cfg"]), [], [], 0.0, []
            rd.append(k.read(inst))
            for op in p["ops"]:
                y = k.apply(inst, op)
                m = max(m, zoo.magnitude(y))
                out.append(y)
                rd.append(k.read(inst))
                sc.append(m)
            expected.append(out)
            reads.append(rd)
            scales.append(sc)
    store, crashes, at, serial = Storage(), list(plan["crashes"]), 0, 1
    real, clock = time.time, [1.7e9]
    time.time = lambda: clock[0]
    try:
        process = runtime.Process()
        with process:
            live = [k.make(process, p["cfg"]) for k, p in zip(kinds, parts)]
        while True:
            crash = crashes[0] if crashes and crashes[0]["at"] <= at else None
            if at in plan["points"]:
                with process:
                    texts = [process.Serial.encode(v, compress=plan["compress"]) for v in live]
                if crash and crash["torn"] and plan["compress"]:
                    store.write((at, texts), crash["cut"], plan["old"])
                    ctx.fault("torn")
                else:
                    store.write((at, texts))
                ctx.stat("compressed" if plan["compress"] else "plain")
                ctx.event("checkpoint", at)
                with process:
                    for k, v, rd, p in zip(kinds, live, reads, parts):
                        zoo.same_read(k, v, rd[min(at, len(p["ops"]))], f"{k.name} {p['cfg']} after its checkpoint at {at}")
            if crash:
                crashes.pop(0)
                ctx.fault("crash")
                if serial > 1:
                    ctx.stat("second-crash")
                process, serial = runtime.Process(), serial + 1
                clock[0] += 86400.0 * (serial % 3 - 1)
                before, live = at, None
                with process:
                    for when, texts, torn in store.newest():
                        try:
                            if len(texts) != len(parts):
                                raise ValueError("incomplete")
                            live = [process.Serial.decode(t) for t in texts]
                        except Exception as ex:
                            check(torn, "not-restored", f"the checkpoint at {when} of {[p['kind'] for p in parts]} was not restored by process {serial}: {type(ex).__name__}: {ex}")
                            continue
                        at = when
                        if torn:  # the older text of the slot, complete, or the new one but for padding
                            good = all(same(k, v, rd[min(when, len(p["ops"]))]) for k, v, rd, p in zip(kinds, live, reads, parts))
                            if not good:
                                live = None
                                continue
                        break
                    if live is None:
                        at = 0
                        ctx.stat("from-nothing")
                        live = [k.make(process, p["cfg"]) for k, p in zip(kinds, parts)]
                    for k, v, rd, p in zip(kinds, live, reads, parts):
                        zoo.same_read(k, v, rd[min(at, len(p["ops"]))], f"{k.name} {p['cfg']} restored by process {serial} from the checkpoint at {at}")
                if before > at:
                    ctx.stat("replayed", before - at)
                for p in parts:
                    ctx.state(p["kind"], p["ops"][before - 1][0] if 0 < before <= len(p["ops"]) else "", p["ops"][at][0] if at < len(p["ops"]) else "", min(5, before - at), crash["torn"], plan["compress"])
                ctx.event("restored", at, before)
                continue
            if at >= n:
                break
            with process:
                for k, v, p, want, rd, sc in zip(kinds, live, parts, expected, reads, scales):
                    if at < len(p["ops"]):
                        where = f"{k.name} {p['cfg']} operation {at} {p['ops'][at]} in process {serial}"
                        y = k.apply(v, p["ops"][at])
                        zoo.same_outputs(k, y, want[at], where, "continued", scale=sc[at])
                        zoo.same_read(k, v, rd[at + 1], where)
                        for a in y:
                            ctx.values(k.name, a)
            at += 1
            ctx.steps += 1
    finally:
        time.time = real


def same(k, v, rd):
    try:
        zoo.same_read(k, v, rd, "")
        return True
    except kit.Violation:
        return False
