"""Calls, responses and their reference outcomes for the REST client checks."""

import base64
import gzip
import io
import json
import random
import urllib.parse
import zlib

from sim import net as N
from sim.kit import check

METHODS = ["Delete", "Get", "Head", "Options", "Patch", "Post", "Put"]
BAD_METHODS = ["Trace", "Connect", "", "GETX", "get ", "ge t", "Copy", "post\r\nX: 1", "Gets"]
WORDS = ["a", "item", "v1", "x y", "é", "data", "100%25", "%41b", "a+b", "k=v", "p;q", "q,r", "A-B_c~d", "日本", "u@h", "c:d", "7", "(z)", "!", "'", "a//b"]


# -- calls ---------------------------------------------------------------------------

def draw_call(r, tag):
    method = "".join(r.choice([c.upper(), c.lower()]) for c in r.choice(METHODS))
    parts = [r.choice(WORDS) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    api = "/".join(parts)
    api = "/" * r.choice([0, 0, 1, 2]) + api + "/" * r.choice([0, 0, 1, 3])
    call = dict(method=method, api=api, tag=tag)
    if r.random() < 0.1 and parts:
        call["api"] = api.rstrip("/") + "?" + r.choice(["q=1", "q=a&w=b"])
    if r.random() < 0.5:
        call["item"] = {r.choice(["k", "key", "é", "a b", "x[]"]) + str(i): r.choice(["1", "", "a b", "é&=", 5, 2.5, ["x", "y"], "%41", None, "a+b"]) for i in range(r.randrange(0, 4))}
    if r.random() < 0.6:
        call["header"] = {r.choice(["X-Tag", "x-other", "Accept", "User-Agent", "Content-Type", "Cookie", "X-Empty"]): r.choice(["v", "a/b; c=d", "text/plain", "", "k=v"]) for _ in range(r.randrange(0, 4))}
    if r.random() < 0.3:
        call["auth"] = r.choice([["basic", "user", "pass word"], ["basic", "a", ""], ["object", "u", "p:q"], ["custom", "token", ""]])
    k = r.random()
    if k < 0.4:
        call["data"] = r.choice([["form", {"a": "1", "b c": "é&", "l": ["x", "y"]}], ["form", {}], ["pairs", [["a", "1"], ["a", "2"]]], ["bytes", r.choice([0, 1, 10, 5000, 70000] if r.random() < 0.95 else [300000, 1500000]), r.randrange(1 << 30)],
                                  ["text", r.choice(["", "hello", "é日本", "a=b&c"])], ["file", r.choice([0, 10, 5000]), r.randrange(1 << 30)], ["generator", [r.choice([1, 3, 100, 9000]) for _ in range(r.randrange(1, 4))], r.randrange(1 << 30)]])
    elif k < 0.7:
        call["json"] = ["json", r.choice([{}, [], 0, False, "", {"a": [1, 2.5, None, True]}, [1, {"é": "日本"}], "text", {"big": "x" * r.choice([3000, 3000, 40000])}, {"n": {"m": {"o": []}}}, 1e300, -1])]
    return call


def noise(n, seed):
    return random.Random(seed).randbytes(n)


class Token:
    """Authentication by a callable, which requests passes the prepared request."""

    def __init__(self, value):
        self.value = value

    def __call__(self, q):
        q.headers["X-Token"] = self.value
        return q


def arguments(call):
    """The keyword arguments of RestClient.request, made anew each time."""
    import requests.auth

    k = dict(method=call["method"], api=call["api"])
    for n in ("item", "header"):
        if n in call:
            k[n] = json.loads(json.dumps(call[n]))
    if "auth" in call:
        how, a, b = call["auth"]
        k["auth"] = (a, b) if how == "basic" else requests.auth.HTTPBasicAuth(a, b) if how == "object" else Token(a)
    if "data" in call:
        d = call["data"]
        if d[0] == "form":
            k["data"] = json.loads(json.dumps(d[1]))
        elif d[0] == "pairs":
            k["data"] = [tuple(p) for p in d[1]]
        elif d[0] == "bytes":
            k["data"] = noise(d[1], d[2])
        elif d[0] == "text":
            k["data"] = d[1]
        elif d[0] == "file":
            k["data"] = io.BytesIO(noise(d[1], d[2]))
        else:
            k["data"] = (noise(n, d[2] + i) for i, n in enumerate(d[1]))
    if "json" in call:
        k["json"] = json.loads(json.dumps(call["json"][1]))
    return k


def perform(client, call):
    k = arguments(call)
    return client.request(k.pop("method"), k.pop("api"), **k)


def expected_url(base, api):
    base = base.strip("/")
    api = api.strip("/")
    return base + ("/" + api if api else "")


def check_request(q, call, base, proxy, ctx):
    """The request that arrived is the one the call describes."""
    where = f"call {call} on {base!r}: "
    u = urllib.parse.urlsplit(expected_url(base, call["api"]))
    method = call["method"].upper()
    check(q.method == method, "method", f"{where}{q.method} was sent")
    target = q.target
    if proxy:
        check(target.startswith("http://"), "proxy", f"{where}the proxy received the target {target!r}")
        t = urllib.parse.urlsplit(target)
        check(t.hostname == u.hostname.lower() and (t.port or 80) == (u.port or 80), "proxy", f"{where}the proxy received the target {target!r}")
        path, query = t.path, t.query
    else:
        check(target.startswith("/"), "target", f"{where}{target!r}")
        path, _, query = target.partition("?")
    check(urllib.parse.unquote(path) == urllib.parse.unquote(u.path or "/"), "target", f"{where}the path is {path!r} instead of {u.path or '/'!r}")
    want = urllib.parse.parse_qsl(u.query, keep_blank_values=True)
    for k, v in (call.get("item") or {}).items():
        for x in v if isinstance(v, list) else [v]:
            if x is not None:
                want.append((k, str(x)))
    check(urllib.parse.parse_qsl(query, keep_blank_values=True) == want, "query", f"{where}the query is {query!r} instead of {want}")
    check("#" not in target, "target", f"{where}{target!r}")
    name, _, port = (q.get("host") or "").lower().partition(":")
    check(name == u.hostname.lower() and (int(port or 80)) == (u.port or 80), "host", f"{where}Host is {q.get('host')!r}")
    for k, v in (call.get("header") or {}).items():
        got = [b for a, b in q.headers if a.lower() == k.lower()]
        same = [b for a, b in (call["header"]).items() if a.lower() == k.lower()]
        if k.lower() == "content-type" and "data" in call and call["data"][0] in ("form", "pairs") and not v:
            continue
        check(len(got) == 1 and got[0] in [x.strip() for x in same], "header", f"{where}{k} arrived as {got}")
    auth, want = call.get("auth"), None
    if auth and auth[0] in ("basic", "object"):
        want = "Basic " + base64.b64encode(f"{auth[1]}:{auth[2]}".encode()).decode()
    elif u.username and not auth:
        want = "Basic " + base64.b64encode(f"{urllib.parse.unquote(u.username)}:{urllib.parse.unquote(u.password or '')}".encode()).decode()
    check(q.get("authorization") == want, "credentials", f"{where}Authorization is {q.get('authorization')!r} instead of {want!r}")
    token = auth[1] if auth and auth[0] == "custom" else None
    check(q.get("x-token") == token, "credentials", f"{where}X-Token is {q.get('x-token')!r}")
    given = {k.lower() for k in call.get("header") or {}}
    if "cookie" not in given:
        check(q.get("cookie") is None, "leak", f"{where}Cookie {q.get('cookie')!r} was sent")
    for a, b in q.headers:
        ok = a.lower() in given or a.lower() in ("host", "user-agent", "accept", "accept-encoding", "connection", "content-length", "transfer-encoding", "content-type", "authorization", "x-token", "proxy-authorization", "proxy-connection", "keep-alive", "cookie")
        check(ok, "leak", f"{where}the header {a}: {b} was added")
    purl = urllib.parse.urlsplit(proxy) if proxy else None
    want = "Basic " + base64.b64encode(f"{urllib.parse.unquote(purl.username)}:{urllib.parse.unquote(purl.password or '')}".encode()).decode() if purl and purl.username else None
    check(q.get("proxy-authorization") == want, "credentials", f"{where}Proxy-Authorization is {q.get('proxy-authorization')!r} instead of {want!r}")
    ctype = (q.get("content-type") or "").lower()
    d = call.get("data")
    if "json" in call:
        try:
            got = json.loads(q.body)
        except ValueError:
            check(False, "body", f"{where}the body is {q.body[:80]!r}")
        check(got == call["json"][1] and type(got) is type(call["json"][1]), "body", f"{where}the body is {q.body[:80]!r}")
        if "content-type" not in given:
            check(ctype.split(";")[0] == "application/json", "body", f"{where}Content-Type is {ctype!r}")
    elif d is None:
        check(q.body == b"", "body", f"{where}the body is {q.body[:80]!r}")
    elif d[0] in ("form", "pairs"):
        want = [(k, x) for k, v in (d[1].items() if d[0] == "form" else d[1]) for x in (v if isinstance(v, list) else [v])]
        check(urllib.parse.parse_qsl(q.body.decode("latin-1"), keep_blank_values=True) == want, "body", f"{where}the body is {q.body[:80]!r}")
        if want and "content-type" not in given:
            check(ctype.split(";")[0] == "application/x-www-form-urlencoded", "body", f"{where}Content-Type is {ctype!r}")
    else:
        want = noise(d[1], d[2]) if d[0] in ("bytes", "file") else d[1].encode() if d[0] == "text" else b"".join(noise(n, d[2] + i) for i, n in enumerate(d[1]))
        check(q.body == want, "body", f"{where}{len(q.body)} bytes of body arrived, {len(want)} were given")


# -- responses -----------------------------------------------------------------------

STATUS = [200, 200, 200, 200, 201, 202, 204, 206, 304]
ERRORS = [400, 401, 403, 404, 405, 408, 409, 410, 413, 418, 425, 429, 431, 451, 499, 500, 501, 502, 503, 504, 507, 511, 599]


def draw_response(r, broken=0.0, slow=False):
    p = dict(status=r.choice(STATUS), body=[r.choice(["bytes", "json", "text"]), r.choice([0, 0, 1, 5, 40, 300, 5000, 40000]), r.randrange(1 << 30)],
             framing=r.choice(["length", "length", "chunked", "close"]), chunks=[r.choice([1, 2, 7, 64, 1000, 9000]) for _ in range(r.randrange(1, 4))],
             cuts=[r.randrange(1, r.choice([20, 200, 6000])) for _ in range(r.choice([0, 1, 1, 3, 8]))], head=[["X-Reply", str(r.randrange(1000))]])
    if p["framing"] == "chunked" and p["body"][1] > 3000:
        p["chunks"] = [c for c in p["chunks"] if c >= 64] or [500]
    if r.random() < 0.3:
        p["encoding"] = r.choice(["gzip", "gzip", "deflate"])
    if p["body"][0] == "text" and r.random() < 0.4:
        p["charset"] = r.choice(["ISO-8859-1", "utf-16", "windows-1252"])
    if r.random() < 0.2:
        p["head"].append(["Set-Cookie", f"sid={r.randrange(1000)}; Path=/"])
    if r.random() < 0.1:
        p["head"] += [["X-Many", "a"], ["X-Many", "b"]]
    if r.random() < 0.2:
        p["http10"] = True
    if r.random() < 0.1:
        p["early"] = True  # 100 Continue first
    if r.random() < broken:
        k = r.choice(["status", "status", "cut", "cut", "cut", "rst", "garbage", "corrupt", "nothing", "chunksize", "version"])
        if k == "status":
            p["status"] = r.choice(ERRORS)
            if r.random() < 0.4:
                p["head"].append(r.choice([["Retry-After", "1"], ["WWW-Authenticate", 'Basic realm="x"'], ["WWW-Authenticate", 'Digest realm="x", nonce="n", qop="auth"'], ["Proxy-Authenticate", "Basic"]]))
        elif k == "cut":
            p["cut"], p["end"] = r.choice([round(r.random(), 3), round(r.random(), 3), -r.randrange(1, 12)]), r.choice(["fin", "fin", "rst"])
        elif k == "rst":
            p["cut"], p["end"] = r.choice([0.0, round(r.random(), 3)]), "rst"
        elif k == "garbage":
            p["garbage"] = [r.choice([1, 10, 100, 5000, 70000]), r.randrange(1 << 30), r.choice(["raw", "raw", "html", "line", "headers", "ssh", "tls"])]
            p["end"] = "fin"
        elif k == "corrupt":
            p["encoding"], p["corrupt"] = r.choice(["gzip", "deflate"]), [round(r.random(), 4), r.randrange(1, 256)]
            p["body"] = ["bytes", r.choice([5, 40, 300, 5000]), p["body"][2]] if r.random() < 0.5 else ["text", r.choice([40, 300, 5000]), p["body"][2]]
        elif k == "nothing":
            p["cut"], p["end"] = 0.0, "fin"
        elif k == "chunksize":
            p["framing"], p["badsize"] = "chunked", r.choice(["zz", "", "-5", "0x", "1g"])
            p["body"][1] = max(40, p["body"][1])
        else:
            p["badversion"] = r.choice(["HTTP/x.1 200 OK", "HTP/1.1 200 OK", "HTTP/1.1 abc OK", "HTTP/1.1 20 OK", "HTTP/1.1 2000 OK", "200 OK", "HTTP/1.1 -20 OK"])
    return p


def body_of(p):
    kind, n, seed = p["body"]
    if kind == "bytes":
        return noise(n, seed)
    r = random.Random(seed)
    if kind == "text":
        return (" ".join(r.choice(["alpha", "beta", "é", "0"]) for _ in range(n // 4)))[:n].encode(p.get("charset", "utf-8"))
    return json.dumps({"n": n, "seed": seed, "fill": "z" * max(0, n - 40)}).encode()


def wire(p, method):
    """(bytes of the response, length of the head, entity bytes)"""
    body, status = body_of(p), p["status"]
    entity = body
    headers = [tuple(h) for h in p["head"]]
    e = p.get("encoding")
    if e == "gzip":
        entity = gzip.compress(body, 6, mtime=0)
        headers.append(("Content-Encoding", "gzip"))
    elif e == "deflate":
        entity = zlib.compress(body)
        headers.append(("Content-Encoding", "deflate"))
    framing = p["framing"]
    if p["body"][0] == "json":
        headers.append(("Content-Type", "application/json"))
    elif p["body"][0] == "text":
        headers.append(("Content-Type", "text/plain; charset=" + p.get("charset", "utf-8")))
    if status in (204, 304):
        framing, entity = "none", b""
    if p.get("http10") and framing == "chunked":
        framing = "length"
    if "corrupt" in p and entity:
        at = min(len(entity) - 1, int(p["corrupt"][0] * len(entity)))
        entity = entity[:at] + bytes([entity[at] ^ p["corrupt"][1]]) + entity[at + 1 :]
    head = method.upper() == "HEAD"
    data = N.payload(status, "Reason Text", headers, entity, framing, p["chunks"], head, "1.0" if p.get("http10") else "1.1")
    n = data.find(b"\r\n\r\n") + 4
    if "badsize" in p and framing == "chunked" and not head and entity:
        at = data.find(b"\r\n", n)
        data = data[:n] + p["badsize"].encode() + data[at:]
    if "badversion" in p:
        at = data.find(b"\r\n")
        data, n = p["badversion"].encode() + data[at:], n + len(p["badversion"]) - at
    if p.get("early") and "badversion" not in p:
        data, n = b"HTTP/1.1 100 Continue\r\n\r\n" + data, n + 25
    if "garbage" in p:
        size, seed, style = p["garbage"]
        if style == "raw":
            data = noise(size, seed)
        elif style == "html":
            data = b"<html><body>not http</body></html>\r\n" * max(1, size // 36)
        elif style == "line":
            data = b"HTTP/1.1 200 " + b"x" * 70000 + b"\r\n\r\n"
        elif style == "headers":
            data = b"HTTP/1.1 200 OK\r\n" + b"".join(b"X-%d: y\r\n" % i for i in range(150)) + b"\r\n"
        elif style == "ssh":
            data = b"SSH-2.0-OpenSSH_9.6\r\n"
        else:
            data = b"\x15\x03\x01\x00\x02\x02\x46"
        n = len(data)
    return data, n, entity, framing


def realise(p, method, delay=0.0):
    """(events, outcome): outcome is ok, error (must raise), head (cut inside the head by an orderly close), or either."""
    data, n, entity, framing = wire(p, method)
    body, outcome = body_of(p), "ok"
    head = method.upper() == "HEAD"
    if head or framing == "none":
        body = b""
    end = p.get("end")
    if end is None and framing == "close":
        end = "fin"
    if "cut" in p:
        cut = int(p["cut"] * len(data)) if p["cut"] >= 0 else len(data) + p["cut"]
        cut = max(0, min(len(data), cut))
        if cut < len(data):
            if cut < n:
                first = data.rfind(b"HTTP/", 0, n)
                outcome = "head" if end == "fin" and cut > first + 11 else "error"
            elif framing == "close":
                outcome = "error" if end == "rst" else "either"
            elif framing == "length":
                outcome = "error"
            else:
                done = data[:cut]
                outcome = "error" if len(_chunk_data(done[n:])) < len(entity) else "either"
            data = data[:cut]
            if outcome == "either" and framing == "close":
                body = None
        elif framing == "close" and end == "rst" and not head:
            outcome = "error"
    elif framing == "close" and end == "rst" and not head:
        outcome = "error"
    if "garbage" in p:
        outcome = "error"
    if "badversion" in p:
        outcome = "error"
    if outcome == "ok" and "badsize" in p and framing == "chunked" and not head and entity:
        outcome = "error"
    if outcome in ("ok", "either") and "corrupt" in p and not head and framing != "none":
        outcome, body = _decoded(entity, p["encoding"], body)
    if p["status"] >= 400 and outcome in ("ok", "either"):
        outcome = "error"
    events = N.segments(data, p["cuts"], delay, end) if data else ([[delay, end, b""]] if end else [])
    return events, outcome, body


def _chunk_data(b):
    out, at = b"", 0
    while True:
        e = b.find(b"\r\n", at)
        if e < 0:
            return out
        try:
            n = int(b[at:e].split(b";")[0], 16)
        except ValueError:
            return out
        if not n:
            return out
        out += b[e + 2 : e + 2 + n]
        at = e + 2 + n + 2


def _decoded(entity, encoding, body):
    """What the corrupted entity is: only damage its own checksum shows must be noticed."""
    try:
        if encoding == "gzip":
            d = zlib.decompressobj(16 + zlib.MAX_WBITS)
        else:
            d = zlib.decompressobj()
        out = d.decompress(entity)
        if not d.eof or d.unused_data:
            return "either", None
        return ("ok" if out == body else "either"), out
    except zlib.error:
        if encoding == "deflate":
            try:
                d = zlib.decompressobj(-zlib.MAX_WBITS)
                d.decompress(entity)
                return "either", None  # the stack may take it for a raw stream
            except zlib.error:
                pass
        return "error", body


def check_response(value, p, body, where):
    """The value returned is the response that was sent, readable without its connection."""
    check(value is not None, "response", f"{where} returned {value!r}")
    check(value.status_code == p["status"], "response", f"{where} returned status {value.status_code} instead of {p['status']}")
    names = {}
    for k, v in p["head"]:
        names.setdefault(k.lower(), []).append(v)
    for k, v in names.items():
        check(value.headers.get(k) == ", ".join(v), "response", f"{where} returned {k}: {value.headers.get(k)!r} instead of {v}")
    if body is None:
        return
    try:
        got = value.content
    except Exception as ex:
        check(False, "response", f"{where}: the body cannot be read afterwards: {type(ex).__name__} {ex}")
    check(got == body, "response", f"{where} returned {len(got)} bytes {got[:60]!r} instead of the {len(body)} bytes {body[:60]!r}")
    if p["body"][0] == "json" and body:
        check(value.json() == json.loads(body), "response", f"{where}: json() differs")
    if p["body"][0] == "text" and body:
        check(value.text == body.decode(p.get("charset", "utf-8")), "response", f"{where}: text differs")
