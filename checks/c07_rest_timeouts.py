"""C07: timeouts bound how long a call waits, and never abort a server that stays within them."""

from sim import net, rest, sched
from sim.kit import check

ID = "C07"
RUNS = dict(quick=20000, thorough=500000)
SHRINK_LISTS = ("calls", "tasks", "switches", "gaps", "addresses", "assign")
RULE = ("A run has 1 to 3 concurrent callers, each with its own client, server of 1 to 3 addresses and timeout settings (number, pair, unlimited, changed between and during calls), making 1 to 3 calls; connections are accepted "
        "after a drawn delay, refused late or never answered, and responses arrive in up to 12 pieces with drawn pauses around the limits, or stop; non-trivial if a wait came within or beyond a tenth of its limit; distinct by digest.")
STATE = "distinct (form of the setting, addresses, position and ratio of the longest pause, outcome)"
REAL = ["diamondback.commons.rest_client", "requests, urllib3 and http.client (complete)"]
STUB = ["sockets, name resolution and servers (simulated)", "time (virtual)"]
ASSUMPTIONS = ["name resolution takes no time: no setting covers it", "a stalled transmission of the request is bounded by the larger of both limits"]
PROBES = ("unanswered", "read-timeout", "refused", "in-time", "late-connect", "late-data", "assigned-during-call", "unlimited", "send-stall", "second-address")

RATIOS = [0.0, 0.0, 0.01, 0.3, 0.9, 0.99, 0.999]
LATE = [1.001, 1.01, 1.5, 4.0, 1000.0]


def draw_timeout(r):
    c, d = r.choice([0.01, 0.5, 1, 3.05, 10.0, 30, 300, 1800]), r.choice([0.01, 0.2, 1, 5, 27, 60.0, 3600, 100000])
    k = r.choice(["default", "number", "pair", "pair", "pair", "none", "noread", "noconnect"])
    return dict(default="default", number=d, pair=[c, d], none=None, noread=[c, None], noconnect=[None, d])[k]


def generate(r, tier):
    tasks = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        calls = []
        for k in range(r.choice([1, 1, 2, 3])):
            late = r.choice(["connect", "data", "data", "none", "none"])
            addresses = [dict(kind=r.choice(["accept", "accept", "refuse", "silent", "unreachable"]), ratio=r.choice(RATIOS)) for _ in range(r.choice([1, 1, 2, 3]))]
            if late == "connect":
                r.choice(addresses)["ratio"] = r.choice(LATE)
            elif r.random() < 0.8:
                addresses[-1]["kind"] = "accept"
            n = r.choice([1, 2, 3, 6, 12])
            gaps = [r.choice(RATIOS) for _ in range(n)]
            if late == "data":
                gaps[r.randrange(n)] = r.choice(LATE + ["stop"])
            calls.append(dict(addresses=addresses, gaps=gaps, timeout=draw_timeout(r) if k == 0 or r.random() < 0.5 else "same", framing=r.choice(["length", "chunked", "close"]), size=r.choice([1, 40, 3000]),
                              method=r.choice(["Get", "Post", "Delete", "Put"]), data=r.choice([0, 0, 10, 9000]), seed=r.randrange(1 << 30), send=r.choice([None, None, None, 0.2, 0.9]), proxy=r.random() < 0.15))
        tasks.append(dict(calls=calls, assign=[[round(r.choice([0.0011, 0.05, 1.7, 20.0]) * r.uniform(0.5, 2), 4), draw_timeout(r)] for _ in range(r.choice([0, 0, 0, 1, 3]))]))
    return dict(tasks=tasks, sched=dict(seed=r.randrange(1 << 40), gap=r.choice([5, 30, 200])))


def limits(t):
    if t == "default":
        return 10.0, 60.0
    if t is None:
        return None, None
    if isinstance(t, list):
        return tuple(t)
    return t, t


def execute(plan, ctx):
    import random

    s = sched.Scheduler(plan["sched"], ctx)
    now = {}
    hosts = {f"svc{t}": [f"10.0.{t}.{a + 1}" for a in range(3)] for t in range(len(plan["tasks"]))}
    hosts.update({f"proxy{t}": hosts[f"svc{t}"] for t in range(len(plan["tasks"]))})

    def accept(addr, sock):
        t = int(addr[0].split(".")[2])
        a = int(addr[0].split(".")[3]) - 1
        c, lim = now[t]["call"], now[t]["limits"]
        spec = c["addresses"][a]
        d = dict(kind=spec["kind"], delay=spec["ratio"] * (lim[0] if lim[0] is not None else 7.0))
        if c["send"] is not None and c["data"]:
            bound = min([x for x in lim if x is not None] or [5.0])
            d["send"] = dict(at=c["data"] // 2, what="stall", seconds=c["send"] * bound)
        if a:
            ctx.stat("second-address")
        return d

    def respond(conn, q):
        t = int(conn.addr[0].split(".")[2])
        c = now[t]["call"]
        return now[t]["events"]

    n = net.Net(s, ctx, hosts, accept, respond)

    def build(c, lim):
        """Timed events and the instants they are due, relative to the arrival of the request."""
        r = random.Random(c["seed"])
        data = net.payload(200, "OK", [("X-Reply", "1")], b"y" * c["size"], c["framing"], [max(1, c["size"] // 3)])
        gaps = list(c["gaps"]) or [0.0]
        cuts = sorted(r.sample(range(1, len(data)), min(len(gaps) - 1, len(data) - 1)))
        parts = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
        unit = lim[1] if lim[1] is not None else 50.0
        events, stop = [], False
        for g, p in zip(gaps, parts):
            if g == "stop":
                stop = True
                break
            events.append([g * unit, "data", p])
        if not stop and c["framing"] == "close":
            events.append([0.0, "fin", b""])
        return events, stop

    def expect(c, lim, events, stop):
        """(succeeds, how long it takes at most) for the settings in force."""
        t, connected = 0.0, False
        for spec in c["addresses"]:
            d = spec["ratio"] * (lim[0] if lim[0] is not None else 7.0)
            if spec["kind"] == "silent" or (lim[0] is not None and d >= lim[0]):
                if lim[0] is None:
                    return None
                t += lim[0]
                ctx.stat("late-connect")
                continue
            t += d
            if spec["kind"] == "accept":
                connected = True
                break
        if not connected:
            return False, t
        if c["send"] is not None and c["data"]:
            t += c["send"] * min([x for x in lim if x is not None] or [5.0])
        for d, _, _ in events:
            if lim[1] is not None and d >= lim[1]:
                ctx.stat("late-data")
                return False, t + lim[1]
            t += d
        if stop:
            return (False, t + lim[1]) if lim[1] is not None else None
        return True, t

    def body(t, spec):
        with_client = n.process.RestClient()
        current = dict(value="default")
        now[t]["client"], now[t]["current"] = with_client, current
        with_client.url = f"http://svc{t}:8080"
        for i, c in enumerate(spec["calls"]):
            if c["timeout"] != "same" and not (c["timeout"] == "default" and current["value"] != "default"):
                if c["timeout"] != "default":
                    v = c["timeout"]
                    with_client.timeout = tuple(v) if isinstance(v, list) else v
                current["value"] = c["timeout"]
            lim = limits(current["value"])
            # The client is told to use a proxy at the same addresses: the limits are the same.
            with_client.proxy = {"http": f"http://proxy{t}:3128"} if c["proxy"] else {}
            hosts[f"svc{t}"] = hosts[f"proxy{t}"] = [f"10.0.{t}.{a + 1}" for a in range(len(c["addresses"]))]
            events, stop = build(c, lim)
            want = expect(c, lim, events, stop)
            if want is None:
                continue  # would wait for ever, as asked for
            ok, most = want
            now[t].update(call=c, limits=lim, events=events, busy=True)
            start, error, value = n.now(), None, None
            try:
                value = with_client.request(c["method"], f"x/{i}", data=b"d" * c["data"] or None)
            except Exception as ex:
                error = ex
            now[t]["busy"] = False
            took = n.now() - start
            ctx.event(t, i, type(error).__name__, round(took, 9))
            where = f"a call with timeout {current['value'] if not now[t].get('assigned') else lim} to {c['addresses']} with pauses of {[e[0] for e in events]}{' then nothing' if stop else ''}"
            check(took <= most + 1e-6, "too-long", f"{where} took {took} s instead of {most} s")
            if ok:
                ctx.stat("in-time")
                check(error is None, "aborted", f"{where} raised {type(error).__name__}: {error} after {took} s although the server kept within the limits")
                check(value.content == b"y" * c["size"], "response", f"{where} returned {value.content[:40]!r}")
            else:
                check(error is not None, "not-raised", f"{where} returned {value!r}")
                check(took >= most - 1e-6, "aborted", f"{where} raised {type(error).__name__}: {error} after {took} s, before the limits were used up ({most} s)")
            if None in lim:
                ctx.stat("unlimited")
            near = max([x["ratio"] for x in c["addresses"]] + [g if g != "stop" else 9 for g in c["gaps"]])
            if near >= 0.9:
                ctx.nontrivial = True
            ctx.state(str(type(current["value"])), len(c["addresses"]), near, c["gaps"].index(max(c["gaps"], key=lambda g: 9 if g == "stop" else g)), ok, c["framing"])

    def assigner(t, spec):
        for at, v in spec["assign"]:
            n.sleep(at)
            st = now[t]
            if st.get("client") is None:
                continue
            if v == "default":
                v = [10.0, 60.0]
            if st.get("busy"):
                ctx.stat("assigned-during-call")
            st["client"].timeout = tuple(v) if isinstance(v, list) else v
            st["current"]["value"] = v

    with n:
        s.trace = n.trace()
        for t, spec in enumerate(plan["tasks"]):
            now[t] = {}
            s.spawn(f"caller{t}", lambda t=t, spec=spec: body(t, spec))
        for t, spec in enumerate(plan["tasks"]):
            if spec["assign"]:
                s.spawn(f"assigner{t}", lambda t=t, spec=spec: assigner(t, spec))
        s.run()
    for t in s.tasks:
        if t.error:
            raise t.error
    check(s.deadlock is None and not s.overrun, "no-progress", f"a call never ends: {s.deadlock}")
