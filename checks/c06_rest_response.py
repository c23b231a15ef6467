"""C06: a call returns the complete response that was sent for it, or raises."""

import json

from sim import net, rest, sched
from sim.kit import Violation, check

ID = "C06"
RUNS = dict(quick=20000, thorough=600000)
SHRINK_LISTS = ("calls", "cuts", "head", "chunks")
RULE = ("A run makes 1 to 3 calls; each response has drawn status, headers, body, framing (length, chunked, until close, HTTP/1.0), compression and segmentation, and is in most runs cut at a byte (orderly or by reset), corrupted, "
        "replaced by garbage, or an error; non-trivial if the response was damaged or in several segments; distinct by digest of all bytes.")
STATE = "distinct (status class, framing, compression, damage, segments, method class, outcome)"
REAL = ["diamondback.commons.rest_client", "requests, urllib3 and http.client (complete)", "zlib"]
STUB = ["sockets, name resolution and servers (simulated)", "time (virtual)"]
ASSUMPTIONS = ["a body that ends with the connection is complete when the connection ends in order: only its own checksum could tell otherwise",
               "a compressed body whose checksum is never reached (its end is missing although the framing is complete) is not required to be refused",
               "an interim response other than 100 is not sent"]
PROBES = ("ok", "error", "head", "either", "reset", "damage-cut", "damage-corrupt", "damage-garbage", "damage-badsize", "damage-badversion", "damage-status", "segmented", "megabyte", "gone-before-read")


def generate(r, tier):
    calls = []
    for k in range(r.choice([1, 1, 2, 3])):
        method = r.choice(["Get", "Get", "Get", "Post", "Put", "Delete", "Head", "Patch", "Options"])
        reply = rest.draw_response(r, broken=0.75)
        if r.random() < 0.1:
            reply["cuts"] = list(range(1, 120))
        if r.random() < 0.01 and "corrupt" not in reply:
            reply["body"] = ["json" if reply["body"][0] == "json" else "bytes", r.choice([70000, 300000, 1100000, 2500000]), reply["body"][2]]
            reply["chunks"] = [r.choice([4096, 65536, 1000000])]
        c = dict(method=method, reply=reply, delay=r.choice([0.0, 0.0, 0.1, 3.0]), stalled=r.random() < 0.1, extra=r.choice([0, 0, 0, 1]))
        if method in ("Post", "Put", "Patch") and r.random() < 0.5:
            c["data"] = r.choice([1, 100, 5000])
        calls.append(c)
    return dict(calls=calls)


def execute(plan, ctx):
    s = sched.Scheduler(dict(switches=[]), ctx)
    now = dict(call=None, outcome=None)

    def respond(conn, q):
        c = now["call"]
        events, outcome, body = rest.realise(c["reply"], q.method, c["delay"])
        if c["extra"] and c["reply"]["framing"] == "length" and outcome == "ok" and "cut" not in c["reply"]:
            events = events + [[0.0, "data", b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nother"]]  # belongs to nobody
        if c["stalled"] and events and events[-1][1] == "fin":
            events = events[:-1]
        now["outcome"] = (outcome, body)
        return events

    n = net.Net(s, ctx, {"svc": ["10.0.0.2"]}, lambda a, k: dict(kind="accept", delay=0.001), respond)
    results = []
    with n:
        client = n.process.RestClient()
        client.url = "http://svc:8080/base"

        def body():
            for i, c in enumerate(plan["calls"]):
                now.update(call=c, outcome=None)
                where = f"{c['method']} answered with {json.dumps({k: v for k, v in c['reply'].items() if k not in ('cuts', 'chunks')})}"
                error, value = None, None
                before = len(n.requests)
                try:
                    value = client.request(c["method"], f"item/{i}", **({"data": b"d" * c["data"]} if "data" in c else {}))
                except Exception as ex:
                    error = ex
                p = c["reply"]
                check(len(n.requests) - before <= 1, "repeated", f"{where} was requested {len(n.requests) - before} times")
                check(now["outcome"] is not None, "not-sent", f"{where}: nothing was sent, {error!r}")
                outcome, content = now["outcome"]
                if c["stalled"] and p["framing"] == "close" and outcome == "ok" and c["method"] != "Head" and p["status"] not in (204, 304):
                    outcome = "error"
                ctx.event(i, outcome, type(error).__name__ if error else value.status_code)
                ctx.stat(outcome)
                for k in ("cut", "corrupt", "garbage", "badsize", "badversion"):
                    if k in p:
                        ctx.fault("damage-" + k)
                if p["status"] >= 400:
                    ctx.fault("damage-status")
                if len(p["cuts"]) > 1:
                    ctx.stat("segmented")
                if p["body"][1] > 1000000:
                    ctx.stat("megabyte")
                    ctx.nontrivial = True
                ctx.state(p["status"] // 100, p["framing"], p.get("encoding"), [k for k in ("cut", "corrupt", "garbage", "badsize", "badversion") if k in p], len(p["cuts"]), c["method"] == "Head", outcome, p.get("end"))
                if outcome == "error":
                    check(error is not None, "accepted", f"{where} was returned as success: {getattr(value, 'status_code', None)} with {len(getattr(value, 'content', b''))} bytes")
                elif outcome == "head":
                    if error is None:
                        raise Violation("accepted head cut by an orderly close", f"{where} was returned as success {value.status_code}")
                elif outcome == "ok":
                    check(error is None, "refused", f"{where} raised {type(error).__name__}: {error}")
                if error is None:
                    results.append((value, p, content, where))

        s.spawn("caller", body)
        s.run()
        for t in s.tasks:
            if t.error:
                raise t.error
        check(s.deadlock is None and not s.overrun, "no-progress", f"the call never ends: {s.deadlock}")
        # Everything has to be there after every connection is gone.
        for c in n.conns:
            c.queue[:] = [[n.now(), "rst", b""]]
    for value, p, content, where in results:
        ctx.stat("gone-before-read")
        rest.check_response(value, p, content, where)
        ctx.event(value.status_code, rest.zlib.crc32(value.content))
