"""C02: redirection, first use, coexistence with other outputs, rejected calls."""

import re

from sim import sched
from sim.kit import check
from sim.logsim import LEVELS, Machine, Stream, line_pattern

ID = "C02"
RUNS = dict(quick=15000, thorough=500000)
NEEDS_FAULTS = False
SHRINK_LISTS = ("ops",)
RULE = ("A run is one history of 3 to 30 operations in a fresh process: writes, level changes and redirections, the same with invalid arguments, registration and removal of other outputs at the "
        "logging library, direct use of the library, replacement of standard output, new custom levels; every history counts, distinct by digest of operations and of all texts.")
STATE = "distinct (who owns the default output, threshold, current stream, external outputs) situations in which an operation was made"
REAL = ["diamondback.commons.log", "loguru (complete)"]
STUB = ["threading locks (simulated)", "text streams", "wall clock", "standard output and error"]
ASSUMPTIONS = ["messages written directly to the logging library may or may not appear on the log's own stream; only other outputs are checked for them",
               "after some other party removed the log's own output at the library, entries are unconstrained until the next redirection"]
PROBES = ("rejected-level", "rejected-stream", "rejected-write", "lazy-init", "default-removed-by-other", "redirect", "same-stream-again")

NAMES = [n.title() for n in LEVELS] + ["INFO", "warning", "eRRor"]
BAD_LEVEL = ["nope", "", "Infos", "Verbose", 5, None]


def generate(r, tier):
    ops, n = [], r.randrange(3, 31)
    mix = r.choice([
        dict(write=6, level=1, stream=2, bad=2, ext_add=1, ext_remove=1, direct=2, stdout=0.5, custom=0.3, remove_all=0.1, remove_default=0.3),
        dict(write=6, level=2, stream=4, bad=0, ext_add=0, ext_remove=0, direct=0, stdout=1, custom=0, remove_all=0, remove_default=0),
        dict(write=4, level=0.5, stream=3, bad=4, ext_add=0, ext_remove=0, direct=0, stdout=0, custom=0.2, remove_all=0, remove_default=0),
        dict(write=4, level=1, stream=2, bad=1, ext_add=3, ext_remove=2, direct=3, stdout=0, custom=1, remove_all=0.3, remove_default=1),
    ])
    custom, ext = [], 0
    for i in range(n):
        k = r.choices(list(mix), list(mix.values()))[0]
        names = NAMES + [c.title() for c in custom]
        if k == "write":
            ops.append(["write", r.choice(names), i])
        elif k == "level":
            ops.append(["level", r.choice(names)])
        elif k == "stream":
            ops.append(["stream", r.choice([0, 1, 2, 3, "stdout", "stderr"])])
        elif k == "bad":
            b = r.choice(["level", "write", "stream"])
            ops.append(["bad", b, r.choice(BAD_LEVEL) if b != "stream" else r.choice(["none", "nowrite", "string", "number", "uncallable", "list"]), i])
        elif k == "ext_add":
            ops.append(["ext_add", ext, r.choice(NAMES)])
            ext += 1
        elif k == "ext_remove":
            ops.append(["ext_remove", r.randrange(max(1, ext))])
        elif k == "direct":
            ops.append(["direct", r.choice(names).upper(), i])
        elif k == "stdout":
            ops.append(["stdout", i])
        elif k == "custom":
            name = f"LEVEL{i}"
            custom.append(name)
            ops.append(["custom", name, r.choice([0, 1, 7, 15, 22, 27, 35, 45, 60])])
        else:
            ops.append([k])
    ops.append(["write", "Critical", n])
    return dict(ops=ops, tty=r.random() < 0.15)


class NoWrite:
    pass


class Uncallable:
    write = 5


def bad_stream(kind):
    return dict(none=None, nowrite=NoWrite(), string="log.txt", number=7, uncallable=Uncallable(), list=[])[kind]


def execute(plan, ctx):
    s = sched.Scheduler(dict(switches=[]), ctx)
    with Machine(s) as m:
        import sys

        streams = {k: Stream(f"s{k}", s, tty=plan["tty"] and k == 0) for k in range(4)}
        streams["stdout"], streams["stderr"] = m.stdout, m.stderr
        texts = dict(streams)
        ext, levels = {}, dict(LEVELS)
        threshold, current, default = LEVELS["INFO"], None, True  # current None: log not in use yet
        cur_key = None
        expect = {id(st): [] for st in streams.values()}  # list of (pattern, required)
        extra = []

        def snapshot():
            return {k: st.content() for k, st in texts.items()}

        for op in plan["ops"]:
            k, was = op[0], snapshot()
            ctx.event(op)
            ctx.state(default, threshold, str(cur_key), sorted((j, e["level"]) for j, e in ext.items() if e["on"])[:4], k)
            own, message, direct = None, None, False
            if k == "level":
                if op[1].upper() not in levels:
                    continue
                m.Log.level(op[1])
                threshold = levels[op[1].upper()]
            elif k == "stream":
                target = streams[op[1]]
                if target is current:
                    ctx.stat("same-stream-again")
                m.Log.stream(target)
                current, cur_key = target, op[1]
                default = False
                ctx.stat("redirect")
            elif k == "write":
                if op[1].upper() not in levels:
                    continue
                message, no = f"entry-{op[2]}.", levels[op[1].upper()]
                if current is None:
                    ctx.stat("lazy-init")
                    current, cur_key, default = sys.stdout, "stdout*", False
                m.Log.write(op[1], message)
                if no >= threshold:
                    own = current
                else:
                    message = None
                lv = op[1].upper()
            elif k == "bad":
                ctx.stat(f"rejected-{op[1]}")
                try:
                    if op[1] == "level":
                        m.Log.level(op[2])
                    elif op[1] == "write":
                        m.Log.write(op[2], f"entry-{op[3]}.")
                    else:
                        m.Log.stream(bad_stream(op[2]))
                except Exception as ex:
                    ctx.event(type(ex).__name__)
                else:
                    check(False, "accepted", f"{op[1]} accepted {op[2]!r}")
            elif k == "ext_add":
                st = Stream(f"ext{op[1]}", s)
                texts[f"ext{op[1]}"] = st
                ident = m.logger.add(st, level=op[2].upper(), format="EXT {level} {message}", colorize=False)
                ext[op[1]] = dict(stream=st, level=LEVELS[op[2].upper()], ident=ident, on=True)
            elif k == "ext_remove":
                e = ext.get(op[1])
                if not e or not e["on"]:
                    continue
                m.logger.remove(e["ident"])
                e["on"] = False
            elif k == "direct":
                if op[1] not in levels:
                    continue
                message, direct, lv, no = f"entry-{op[2]}.", True, op[1], levels[op[1]]
                m.logger.log(op[1], message)
            elif k == "stdout":
                st = Stream(f"out{op[1]}", s)
                texts[f"out{op[1]}"] = st
                sys.stdout = st
            elif k == "custom":
                if op[1] in levels:
                    continue
                m.logger.level(op[1], no=op[2])
                levels[op[1]] = op[2]
            elif k == "remove_default":
                if default:
                    m.logger.remove(0)
                    default = False
                    ctx.stat("default-removed-by-other")
            elif k == "remove_all":
                m.logger.remove()
                default = False
                for e in ext.values():
                    e["on"] = False
                if current is not None:
                    current, cur_key = "gone", "gone"
            # What each text may have received by this operation.
            now = snapshot()
            for name, st in texts.items():
                delta = now[name][len(was.get(name, "")):]
                e = next((x for j, x in ext.items() if f"ext{j}" == name), None)
                ctx.event(name, delta)
                if e is not None:
                    want = f"EXT {lv} {message}\n" if message is not None and e["on"] and no >= e["level"] else ""
                    check(delta == want, "external", f"after {op} the output registered at level {e['level']} received {delta!r} instead of {want!r}")
                elif current == "gone" and message is not None:
                    continue
                elif message is None:
                    check(not delta, "unwanted", f"{op} put {delta!r} on {name}")
                elif direct:
                    if default and st is m.stderr and no >= 10:
                        check(message in delta, "default", f"before the log is used, {op} is missing from the default output")
                    elif st is current or (default and st is m.stderr):
                        check(not delta or message in delta, "unwanted", f"{op} put {delta!r} on {name}")
                    else:
                        check(not delta, "unwanted", f"{op} put {delta!r} on {name}")
                elif st is own:
                    check(line_pattern(lv, message).fullmatch(delta) is not None, "missing", f"{op} with threshold {threshold} put {delta!r} on {name}")
                else:
                    check(not delta, "unwanted", f"{op} put {delta!r} on {name}, the current stream is {cur_key}")
        ctx.stat("operations", len(plan["ops"]))
