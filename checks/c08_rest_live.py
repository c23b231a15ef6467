"""C08: the live indication is truthful, bounded, and never raises."""

import json

from sim import net, rest, sched
from sim.kit import check

ID = "C08"
RUNS = dict(quick=8000, thorough=500000)
SHRINK_LISTS = ("ops", "tasks", "flaps", "switches", "cuts", "head")
RULE = ("A run has 1 or 2 clients, each watching its own address through 2 to 8 operations - reading the indication, ordinary calls, changes of address, proxy and timeouts - while the address changes between healthy, any error status, "
        "redirecting, refusing, unreachable, unresolvable, unanswering, stalling, resetting, closing, sending garbage or dripping, between operations and during them; non-trivial if an outage was met; distinct by digest.")
STATE = "distinct (state of the address when connecting, indication, previous operation, proxy)"
REAL = ["diamondback.commons.rest_client", "requests, urllib3 and http.client (complete)"]
STUB = ["sockets, name resolution and servers (simulated)", "time (virtual)"]
ASSUMPTIONS = ["plain HTTP", "whether an address that redirects to a dead one is live, or one whose response head is cut by an orderly close, is left open"]
PROBES = ("live", "dead", "open", "refused", "unreachable", "unanswered", "read-timeout", "reset", "resolve-unknown", "garbage", "error-status", "redirect", "bad-address", "call-after-live", "flap", "proxy")

STATES = ["up", "up", "status", "status", "redirect", "deadredirect", "refuse", "unreachable", "silent", "unknown", "stall", "rst", "close", "garbage", "drip", "dripslow", "cut", "slowconnect", "latecon", "body"] * 6 + ["loop"]
BAD_URLS = ["", None, "not an address", "ftp://svc0:8080", "http://", "http://svc0:99999", "http://svc0:x/", "svc0:8080", "http://[::1", "http://.svc0", "http://" + "a" * 70 + ".x", "//svc0"]


def generate(r, tier):
    tasks = []
    for t in range(r.choice([1, 1, 2])):
        ops = [["state", r.choice(STATES), r.randrange(1 << 30)]]
        for _ in range(r.randrange(2, 9)):
            k = r.random()
            if k < 0.5:
                ops.append(["live"])
            elif k < 0.68:
                ops.append(["state", r.choice(STATES), r.randrange(1 << 30)])
            elif k < 0.8:
                ops.append(["call", r.choice(["Get", "Post"]), r.random() < 0.5])
            elif k < 0.86:
                ops.append(["url", r.choice([f"http://svc{t}:8080/", f"http://svc{t}/base/x//", f"http://svc{t}:8080"])])
            elif k < 0.9:
                ops.append(["badurl", r.choice(BAD_URLS)])
            elif k < 0.95:
                ops.append(["timeout", r.choice([[0.5, 2.0], [3, 1], 2.0, [10.0, 60.0]])])
            else:
                ops.append(["proxy", r.random() < 0.6])
        ops.append(["live"])
        flaps = [[round(r.uniform(0.001, 5), 3), r.choice(STATES), r.randrange(1 << 30)] for _ in range(r.choice([0, 0, 0, 2, 5]))]
        tasks.append(dict(ops=ops, flaps=flaps))
    return dict(tasks=tasks, sched=dict(seed=r.randrange(1 << 40), gap=r.choice([5, 30, 200])))


def execute(plan, ctx):
    import random

    s = sched.Scheduler(plan["sched"], ctx)
    state, used, hosts = {}, {}, {}
    names = [f"svc{t}" for t in range(len(plan["tasks"]))]

    def t_of(addr):
        return int(addr[0].split(".")[2])

    class Hosts(dict):
        def get(self, name, default=None):
            if name in names:
                t = names.index(name)
                if state[t][0] == "unknown" and not used[t]["proxy"]:
                    used[t]["states"].append("unknown")
                    return "unknown"
                return [f"10.0.{t}.1"]
            if name and name.startswith("proxy") and name[5:].isdigit():
                t = int(name[5:])
                if state[t][0] == "unknown":
                    used[t]["states"].append("unknown")
                    return "unknown"
                return [f"10.0.{t}.9"]
            if name == "dead":
                return ["10.9.0.1"]
            if name == "alive":
                return ["10.8.0.1"]
            return default

    def accept(addr, sock):
        if addr[0] == "10.9.0.1":
            return dict(kind="refuse", delay=0.0)
        if addr[0] == "10.8.0.1":
            return dict(kind="accept", delay=0.0)
        t = t_of(addr)
        k = state[t][0]
        used[t]["states"].append(k)
        c = used[t]["limits"][0]
        if k in ("refuse", "unreachable", "silent"):
            return dict(kind=k, delay=0.05 if k != "silent" else 0.0)
        return dict(kind="accept", delay=0.9 * c if k == "slowconnect" else 1.5 * c if k == "latecon" else 0.01)

    def respond(conn, q):
        if conn.addr[0] == "10.8.0.1":
            return net.segments(net.payload(200, head=q.method == "HEAD"), [5])
        t = t_of(conn.addr)
        if q.target.startswith("http://alive"):  # through the proxy
            return net.segments(net.payload(200, head=q.method == "HEAD"), [5])
        if q.target.startswith("http://dead"):
            return [[0.01, "rst", b""]]
        k, seed = state[t]
        used[t]["states"].append(k)
        used[t]["answered"] = k
        r, head, d = random.Random(seed), q.method == "HEAD", used[t]["limits"][1]
        body = b"content"
        ok = net.payload(r.choice([200, 204, 201, 304, 206]), "OK", [("X-A", "b")], body, "length", head=head) if k != "body" else net.payload(200, "OK", [], body, "length")
        if k == "status":
            code = r.choice(rest.ERRORS)
            ctx.fault("error-status")
            return net.segments(net.payload(code, "Bad", [("Retry-After", "1")] if r.random() < 0.3 else [("WWW-Authenticate", "Basic")] if r.random() < 0.3 else [], body, r.choice(["length", "close"]), head=head), [r.randrange(1, 60)], 0.0, "fin" if not head else None)
        if k in ("redirect", "deadredirect", "loop"):
            ctx.fault("redirect")
            where = dict(redirect="http://alive/x", deadredirect="http://dead/x", loop="/again")[k]
            return net.segments(net.payload(r.choice([301, 302, 303, 307, 308]), "Moved", [("Location", where)], b"", head=head), [])
        if k == "stall":
            return [] if r.random() < 0.5 else [[0.1, "data", ok[: r.randrange(1, 30)]]]
        if k == "rst":
            return [[0.05, "data", ok[: r.choice([0, 3, 20])]], [0.05, "rst", b""]]
        if k == "close":
            return [[0.05, "fin", b""]]
        if k == "garbage":
            ctx.fault("garbage")
            g = r.choice([b"\x15\x03\x01\x00\x02\x02\x46", b"SSH-2.0-OpenSSH\r\n", b"garbage\r\n\r\n", bytes([r.randrange(1, 9) for _ in range(40)]) + b"\n", b"HTTP/1.1 xyz\r\n\r\n", b"220 smtp ready\r\n"])
            return [[0.01, "data", g], [0.01, "fin", b""]]
        if k in ("drip", "dripslow"):
            at = sorted(r.sample(range(1, len(ok)), 4))
            late = r.randrange(1, 4) if k == "dripslow" else None
            return [[d * (0.95 if i != late else 1.1), "data", ok[a:b]] for i, (a, b) in enumerate(zip([0] + at, at + [len(ok)]))]
        if k == "cut":
            return [[0.01, "data", ok[: r.randrange(13, 19)]], [0.01, "fin", b""]]
        return net.segments(ok, [r.randrange(1, 40) for _ in range(3)], 0.001)

    LIVE = {"up", "status", "drip", "slowconnect", "body", "redirect"}
    DEAD = {"refuse", "unreachable", "silent", "unknown", "stall", "rst", "close", "garbage", "dripslow", "latecon"}

    n = net.Net(s, ctx, Hosts(), accept, respond)

    def body(t, spec):
        c = n.process.RestClient()
        c.url = f"http://svc{t}:8080"
        address, last = f"http://svc{t}:8080", "none"
        used[t]["client"] = c
        for op in spec["ops"]:
            k = op[0]
            ctx.event(t, op)
            if k == "state":
                state[t] = (op[1], op[2])
            elif k == "url":
                c.url, address = op[1], op[1].strip("/")
            elif k == "badurl":
                c.url, address = op[1], "bad"
            elif k == "timeout":
                c.timeout = tuple(op[1]) if isinstance(op[1], list) else op[1]
                used[t]["limits"] = tuple(op[1]) if isinstance(op[1], list) else (op[1], op[1])
            elif k == "proxy":
                c.proxy = {"http": f"http://proxy{t}:3128"} if op[1] else {}
                used[t]["proxy"] = op[1]
            else:
                used[t].update(states=[], answered=None)
                before, conns, start = len(n.requests), len(n.conns), n.now()
                settings = (c.url, c.timeout, dict(c.proxy))
                error, value = None, None
                try:
                    value = c.live if k == "live" else c.request(op[1], "api", item={"q": "1"} if op[2] else None)
                except Exception as ex:
                    error = ex
                took = n.now() - start
                seen, answered = used[t]["states"], used[t]["answered"]
                mine = [q for q in n.requests[before:] if q.conn.owner == n.owner()]
                lim = used[t]["limits"]
                where = f"{op} at {c.url!r} in states {seen} with timeout {c.timeout}"
                check(settings == (c.url, c.timeout, c.proxy), "settings", f"{where} changed the settings")
                if k == "live":
                    check(error is None, "raised", f"{where} raised {type(error).__name__}: {error}")
                    check(isinstance(value, bool), "type", f"{where} gave {value!r}")
                    if address == "bad":
                        ctx.fault("bad-address")
                        if answered is None:
                            check(value is False, "untruthful", f"{where} gave {value}")
                    else:
                        want = True if seen and set(seen) <= LIVE else False if seen and seen[-1] in DEAD and set(seen) <= LIVE | DEAD and (len(set(seen)) == 1 or seen[-1] == (answered or seen[-1])) else None
                        if len(set(seen)) > 1:
                            want = None if want is True and answered not in LIVE else want
                        check(seen, "untruthful", f"{where} gave {value} without contact")
                        ctx.stat("open" if want is None else "live" if want else "dead")
                        if want is not None and len(set(seen)) == 1:
                            check(value is want, "untruthful", f"{where} gave {value}")
                        elif answered in LIVE and want is not None:
                            check(value is True, "untruthful", f"{where} gave {value}")
                    hops = sum(1 for q in mine if q.conn.addr[0].startswith("10.8")) + sum(1 for x in seen if x in ("redirect", "loop", "deadredirect"))
                    check(all(q.method == "HEAD" for q in mine), "request", f"{where} sent {[q.method for q in mine]}")
                    if "loop" not in seen:
                        check(len(mine) <= 1 + (1 if answered in ("redirect", "deadredirect") else 0), "request", f"{where} sent {len(mine)} requests")
                        check(len([x for x in n.conns[conns:] if x.owner == n.owner() and x.sent]) <= 2, "request", f"{where} used many connections")
                    for q in mine[:1]:
                        import urllib.parse

                        if address != "bad":
                            u = urllib.parse.urlsplit(address)
                            path = urllib.parse.urlsplit(q.target).path if used[t]["proxy"] else q.target
                            check(path == (u.path or "/") and not q.body, "request", f"{where} requested {q.target}")
                    pieces = 6 if "drip" in seen else 5 if "dripslow" in seen else 2
                    # Fixed pauses of the script, at most the connect limit, and at most the read limit per arrival.
                    if "loop" not in seen:
                        check(took <= lim[0] + pieces * (lim[1] + 0.1) + 1, "too-long", f"{where} took {took} s")
                        for kind, owner, w in n.waits:
                            if owner == n.owner():
                                check(w <= (lim[0] if kind == "connect" else max(lim)) + 1e-6, "too-long", f"{where} waited {w} s to {kind}")
                    last = "live"
                else:
                    if last == "live":
                        ctx.stat("call-after-live")
                    if address != "bad" and seen and set(seen) <= {"up", "drip", "slowconnect", "body"}:
                        check(error is None, "affected", f"{where} after {last} raised {type(error).__name__}: {error}")
                    if address == "bad":
                        pass
                    elif seen and len(set(seen)) == 1 and seen[0] in (DEAD | {"status"}) - {"dripslow"}:
                        check(error is not None, "affected", f"{where} after {last} returned {value!r}")
                    last = "call"
                n.waits[:] = [w for w in n.waits if w[1] != n.owner()]
                ctx.event(t, k, value if isinstance(value, bool) else getattr(value, "status_code", None), type(error).__name__, round(took, 6))
                ctx.state(k, tuple(seen[:3]), value if isinstance(value, bool) else None, last, used[t]["proxy"], address == "bad")
                if used[t]["proxy"]:
                    ctx.stat("proxy")

    def flapper(t, spec):
        for at, k, seed in spec["flaps"]:
            n.sleep(at)
            ctx.fault("flap")
            state[t] = (k, seed)

    with n:
        s.trace = n.trace()
        for t, spec in enumerate(plan["tasks"]):
            state[t] = ("up", 0)
            used[t] = dict(states=[], answered=None, limits=(10.0, 60.0), proxy=False)
            s.spawn(f"watcher{t}", lambda t=t, spec=spec: body(t, spec))
        for t, spec in enumerate(plan["tasks"]):
            if spec["flaps"]:
                s.spawn(f"flapper{t}", lambda t=t, spec=spec: flapper(t, spec))
        s.run()
    for t in s.tasks:
        if t.error:
            raise t.error
    check(s.deadlock is None and not s.overrun, "no-progress", f"a call never ends: {s.deadlock}")
