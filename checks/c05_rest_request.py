"""C05: a call sends exactly the request it describes, at most once, whatever the network does."""

import json

from sim import net, rest, sched
from sim.kit import check

ID = "C05"
RUNS = dict(quick=20000, thorough=400000)
SHRINK_LISTS = ("calls", "switches", "cuts", "head")
RULE = ("A run makes 1 to 4 calls on one client, each with drawn method, path, query, headers, credentials and body, base address and proxy changed between calls, under drawn faults of name resolution, "
        "connecting (refused, unreachable, unanswered, several addresses), sending (reset, broken pipe, stall at a byte) and responding (any status, redirects, cut, reset, garbage, corruption, silence); "
        "non-trivial if a fault struck or a call was refused; distinct by digest of all bytes sent and received.")
STATE = "distinct (method, kind of body, proxy, fault, status class) combinations"
REAL = ["diamondback.commons.rest_client", "requests, urllib3 and http.client (complete)"]
STUB = ["sockets, name resolution, servers and proxies (simulated)", "time (virtual)"]
ASSUMPTIONS = ["plain HTTP; encrypted connections are not simulated", "paths without dot segments, queries and headers of printable text", "redirects are addresses the call is directed to"]
PROBES = ("refused", "unreachable", "unanswered", "resolve-unknown", "send-reset", "send-pipe", "send-stall", "reset", "read-timeout", "rejected-call", "proxy", "redirect", "second-address")


def draw_base(r):
    host = r.choice(["svc", "svc", "SVC", "other", "two", "10.9.9.9"])
    port = r.choice(["", ":8080", ":8080", ":80", ":443"])
    cred = r.choice(["", "", "", "", "u:p@", "u%40x:p%20q@"])
    path = r.choice(["", "", "/base", "/base/path", "/é", "/a b"])
    return "/" * r.choice([0, 0, 0, 1]) + f"http://{cred}{host}{port}{path}" + "/" * r.choice([0, 0, 1, 2])


def generate(r, tier):
    calls = []
    for k in range(r.choice([1, 1, 2, 3, 4])):
        c = rest.draw_call(r, k)
        if r.random() < 0.12:
            c["bad"] = r.choice(["method", "both"])
            if c["bad"] == "method":
                c["method"] = r.choice(rest.BAD_METHODS)
            else:
                c["data"], c["json"] = r.choice([["form", {"a": "1"}], ["bytes", 5, 1], ["text", "x"]]), ["json", r.choice([{"a": 1}, [1], "x", 5])]
        c["base"] = draw_base(r) if k == 0 or r.random() < 0.4 else None
        c["proxy"] = r.choice([None, None, None, "http://proxy:3128", "http://pu:pp@proxy:3128", "http://proxy:3128/"]) if k == 0 or r.random() < 0.3 else "same"
        c["proxykey"] = r.choice(["http", "http", "all", "https"])
        f = r.choice(["none", "none", "resolve", "connect", "connect", "send", "respond", "respond", "respond", "stall", "redirect"])
        c["fault"] = f
        if f == "resolve":
            c["resolve"] = r.choice(["unknown", "again", "fail"])
        elif f == "connect":
            c["connect"] = [r.choice(["refuse", "refuse", "unreachable", "silent", "accept"]) for _ in range(2)]
        elif f == "send":
            c["send"] = dict(at=r.choice([0, 1, 20, 100, 200, 400, 3000]), what=r.choice(["reset", "pipe", "stall"]), seconds=r.choice([0.5, 5, 100]))
        c["reply"] = rest.draw_response(r, broken=0.9 if f == "respond" else 0.0)
        if f == "redirect":
            c["hops"] = [[r.choice([301, 302, 303, 307, 308]), r.choice(["http://svc:8080/moved", "/moved", "http://other/elsewhere?x=1", "http://two/z"])] for _ in range(r.choice([1, 1, 2]))]
            c["base"] = c["base"] or draw_base(r)
        calls.append(c)
    return dict(calls=calls, sched=dict(switches=[]))


def execute(plan, ctx):
    s = sched.Scheduler(plan["sched"], ctx)
    hosts = {"svc": ["10.0.0.2"], "other": ["10.0.0.3"], "two": ["10.0.0.4", "10.0.0.5"], "proxy": ["10.0.0.9"]}
    now = dict(call=None, n=0, conn=0)

    def accept(addr, sock):
        c, i = now["call"], now["conn"]
        now["conn"] += 1
        kind = "accept"
        if c["fault"] == "connect":
            kind = c["connect"][min(i, len(c["connect"]) - 1)]
        if i and kind == "accept":
            ctx.stat("second-address")
        spec = dict(kind=kind, delay=0.01)
        if c["fault"] == "send":
            spec["send"] = dict(c["send"])
        return spec

    def respond(conn, q):
        c, i = now["call"], now["n"]
        now["n"] += 1
        if c["fault"] == "stall":
            return []
        if c["fault"] == "redirect" and i < len(c["hops"]):
            ctx.fault("redirect")
            status, where = c["hops"][i]
            return net.segments(net.payload(status, "Moved", [("Location", where), ("Set-Cookie", "hop=1")], b"moved"), [9])
        return rest.realise(c["reply"], q.method)[0]

    n = net.Net(s, ctx, hosts, accept, respond)
    with n:
        client = n.process.RestClient()
        state = dict(base="http://127.0.0.1:8080", proxy=None)

        def body():
            for c in plan["calls"]:
                if c["base"] is not None:
                    client.url = c["base"]
                    state["base"] = c["base"]
                    check(client.url == c["base"].strip("/"), "settings", f"url is {client.url!r} after {c['base']!r}")
                if c["proxy"] != "same":
                    p = {c["proxykey"]: c["proxy"]} if c["proxy"] else {}
                    client.proxy = p
                    state["proxy"] = c["proxy"] if c["proxykey"] != "https" else None
                hosts.pop("broken", None)
                now.update(call=c, n=0, conn=0)
                table = dict(hosts)
                if c["fault"] == "resolve":
                    n.hosts = {k: c["resolve"] for k in hosts}
                else:
                    n.hosts = table
                one(c)

        def one(c):
            before = dict(requests=len(n.requests), connects=len(n.connects), lookups=len(n.lookups), conns=len(n.conns), waits=len(n.waits))
            where = f"call {json.dumps({k: v for k, v in c.items() if k in ('method', 'api', 'fault', 'data', 'json')}, ensure_ascii=False)[:300]}"
            error = None
            try:
                value = rest.perform(client, c)
            except Exception as ex:
                error, value = ex, None
            ctx.event("end", c["tag"], type(error).__name__ if error else value.status_code)
            if c.get("bad"):
                ctx.fault("rejected-call")
                check(error is not None, "accepted", f"{where} was not refused")
                quiet = all(len(getattr(n, k)) == before[k] for k in ("requests", "connects", "lookups"))
                check(quiet, "contact", f"{where} was refused, but after contact with the network")
                return
            arrived = n.requests[before["requests"] :]
            conns = [x for x in n.conns[before["conns"] :] if x.sent]
            proxy = state["proxy"]
            if proxy:
                ctx.stat("proxy")
                ours = [a for _, a, _ in n.connects[before["connects"] :] if a[0] != "10.0.0.9" or a[1] != 3128]
                check(not ours, "proxy", f"{where} with proxy {proxy} connected to {ours}")
            hops = c.get("hops", []) if c["fault"] == "redirect" else []
            ctx.state(c["method"].upper(), (c.get("data") or c.get("json") or ["none"])[0], bool(proxy), c["fault"], c["reply"]["status"] // 100, c.get("connect"))
            if not hops:
                check(len(arrived) <= 1, "repeated", f"{where} sent {len(arrived)} requests: {[q.raw[:80] for q in arrived]}")
                check(len(conns) <= 1, "repeated", f"{where} sent data on {len(conns)} connections")
            else:
                check(len(arrived) <= len(hops) + 1, "repeated", f"{where} sent {len(arrived)} requests for {len(hops)} redirects")
            if arrived:
                rest.check_request(arrived[0], c, state["base"], proxy, ctx)
            for q, (_, location) in zip(arrived[1:], hops):
                path = location[location.find("/", 8) :] if location.startswith("http") else location
                check(q.target.endswith(path), "redirect", f"{where} was redirected to {location} but requested {q.target}")
            if error is None or c["fault"] in ("none", "stall", "respond", "redirect"):
                check(arrived, "not-sent", f"{where} sent nothing, and ended with {error!r}")
            if c["fault"] in ("none",) and c["reply"]["status"] < 400:
                check(error is None, "failed", f"{where} raised {type(error).__name__}: {error} although nothing failed")
            if c["fault"] in ("resolve", "stall"):
                import ipaddress
                check(error is not None or state["base"].find("10.9.9.9") >= 0, "unnoticed", f"{where} returned {value!r}")

        s.spawn("caller", body)
        s.run()
        for t in s.tasks:
            if t.error:
                raise t.error
        check(s.deadlock is None and not s.overrun, "no-progress", f"the call never ends: {s.deadlock}")
        ctx.stat("calls", len(plan["calls"]))
        ctx.stat("requests", len(n.requests))
