import base64
import copy
import gzip
import json
import threading
import urllib.parse

import diamondback as db
import requests

from vm.engine import Kind
from vm.service import Service, reply

RULE = ("Each case starts a loopback HTTP service that records every byte it receives, configures one client (base URL with any prefix and slashes, "
        "timeout, optionally the service as proxy of a host that does not exist) and makes 1 to 6 calls of request, from one thread or several, with "
        "random method and case, API path, query items, headers, authentication and body (bytes, text, form, JSON, falsy JSON, none), some of them "
        "invalid; the recorded request is compared with the call and the response with what the service sent (status, reason, headers, plain, chunked, "
        "compressed, empty, or large body). Signatures are (method, path, items, kind of body, status).")
ASSUMPTIONS = ["the service does not redirect, no proxy or netrc in the environment", "header values and credentials ASCII, API paths without ?, # and dot segments, percent signs only as escapes"]
METHODS = ("delete", "get", "head", "options", "patch", "post", "put")
REACH = ["body bytes", "body text", "body form", "body json", "body falsy json", "body none", "rejected method", "rejected data and json", "threads", "prefix",
         "slashes", "proxy", "many items", "auth", "chunked", "compressed", "large body", "no body", "unicode path"] + [f"method {m}" for m in METHODS]
WORDS = ("a", "test", "add", "v1", "x-y_z", "naïve", "日本", "with space", "semi;colon", "plus+", "eq=1", "amp&b", "~tilde", "A.B", "0", "a%20b", "%2Fx", "50%25", "x@y", "k:v", "q'", "!$*,()")


def word(rng):
    return str(WORDS[rng.integers(0, len(WORDS))])


def text(rng, n=12):
    return "".join(rng.choice(list("abcXYZ 0129&=?/+%#;é日\"'{}<>\n\t."), int(rng.integers(0, n + 1))))


def value(rng, depth=0):
    k = int(rng.integers(0, 9 if depth < 2 else 6))
    if k == 0:
        return None
    if k == 1:
        return bool(rng.integers(0, 2))
    if k == 2:
        return int(rng.integers(-(10**9), 10**9))
    if k == 3:
        return float(rng.normal() * 10.0 ** rng.integers(-9, 9))
    if k in (4, 5):
        return text(rng)
    if k == 6:
        return [value(rng, depth + 1) for _ in range(int(rng.integers(0, 4)))]
    return {text(rng, 5): value(rng, depth + 1) for _ in range(int(rng.integers(0, 4)))}


class Token(requests.auth.AuthBase):
    def __init__(self, v):
        self.v = v

    def __call__(self, r):
        r.headers["X-Token"] = self.v
        return r


def describe(rng, number):
    """One call and what must arrive."""
    c = dict(method=str(rng.choice(METHODS)))
    c["spelled"] = {0: str.lower, 1: str.upper, 2: str.title}[int(rng.integers(0, 3))](c["method"])
    segments = [word(rng) for _ in range(int(rng.integers(0, 4)))]
    if len(segments) > 2 and rng.uniform() < 0.3:
        segments[1] = ""  # an empty segment inside is part of the API
    c["segments"] = segments
    c["api"] = "/" * int(rng.integers(0, 3)) + "/".join(segments) + "/" * int(rng.integers(0, 3))
    kw = {}
    if rng.uniform() < 0.6:
        kw["item"] = {f"{text(rng, 3)}k{i}": text(rng) for i in range(int(rng.integers(0, 5) if rng.uniform() < 0.8 else rng.integers(5, 30)))}
        if len(kw["item"]) > 1 and rng.uniform() < 0.5:
            kw["item"] = dict(reversed(kw["item"].items()))
    header = {"X-Call": str(number)}
    for i in range(int(rng.integers(0, 3) if rng.uniform() < 0.9 else rng.integers(3, 40))):
        header[f"X-H{i}"] = "".join(rng.choice(list("abcdef 0123;,=:"), int(rng.integers(1, 20)))).strip() or "v"
    if rng.uniform() < 0.2:
        header["".join(v.upper() if rng.uniform() < 0.5 else v for v in "x-mixed-case")] = "m"
    if rng.uniform() < 0.2:
        header["User-Agent"] = "monitor"
    if rng.uniform() < 0.2:
        header["Accept"] = "text/plain"
    kw["header"] = header
    c["auth"] = None
    if rng.uniform() < 0.3:
        c["auth"] = ("user" + str(rng.integers(0, 99)), "pass:word")
        kw["auth"] = c["auth"] if rng.uniform() < 0.6 else Token("t" + str(number))
    k = ("bytes", "text", "form", "json", "falsy json", "none")[rng.integers(0, 6)]
    if k == "bytes":
        n = int(rng.choice([1, 7, 300, 70000, 300000])) if rng.uniform() < 0.5 else int(rng.integers(1, 50))
        kw["data"] = rng.bytes(n)
    elif k == "text":
        kw["data"] = "t" + text(rng, 40)
    elif k == "form":
        kw["data"] = {f"f{i}": text(rng) for i in range(int(rng.integers(1, 4)))}
    elif k == "json":
        while not kw.get("json"):
            kw["json"] = value(rng)
    elif k == "falsy json":
        kw["json"] = [[], {}, 0, False, "", 0.0][rng.integers(0, 6)]
        if rng.uniform() < 0.3:
            kw["data"] = None
    if k not in ("falsy json", "json") and rng.uniform() < 0.2:
        kw["json"] = None
    c["body"] = k
    c["kw"] = kw
    # The answer.
    c["status"] = int(rng.choice([200, 200, 201, 202, 203, 206, 299, 204, 300, 304]))
    payload = rng.bytes(int(rng.choice([0, 1, 10, 1000, 100000, 1000000], p=[0.1, 0.2, 0.3, 0.3, 0.08, 0.02])))
    if rng.uniform() < 0.3:
        payload = json.dumps(value(rng)).encode()
    c["payload"] = b"" if c["method"] == "head" or c["status"] in (204, 304) else payload
    c["form"] = str(rng.choice(["plain", "plain", "chunked", "gzip", "close"]))
    c["reason"] = str(rng.choice(["Sure", "Sure", "", "Not Exactly OK", "404 Not Found"]))
    c["reply"] = [(f"X-R{i}", "r" + str(rng.integers(0, 1000))) for i in range(int(rng.integers(0, 3)))] + [("X-Call", str(number))]
    if rng.uniform() < 0.3:
        c["reply"].append(("Set-Cookie", f"c{number}=v{rng.integers(0, 99)}; Path=/"))
    return c


def answer(c):
    h = list(c["reply"])
    if c["method"] == "head" or c["status"] in (204, 304):
        return reply(c["status"], c["reason"], h, length=c["status"] == 200), False
    if c["form"] == "chunked":
        return reply(c["status"], c["reason"], h, c["payload"], chunked=max(1, len(c["payload"]) // 3)), False
    if c["form"] == "gzip":
        return reply(c["status"], c["reason"], h + [("Content-Encoding", "gzip")], gzip.compress(c["payload"])), False
    if c["form"] == "close":
        return reply(c["status"], c["reason"], h + [("Connection", "close")], c["payload"], length=False), True
    return reply(c["status"], c["reason"], h, c["payload"]), False


def calls(ctx):
    rng = ctx.rng
    table = {}

    def plan(e, send, close):
        c = table.get((e.header("x-call") or ["?"])[0])
        if c is None:
            send(reply(500))
            return
        b, end = answer(c)
        send(b)
        if end:
            close()

    s = Service(plan)
    try:
        client = db.RestClient()
        prefix = [str(rng.choice(["base", "v2", "svc"])) for _ in range(int(rng.integers(0, 3)))]
        proxied = rng.uniform() < 0.15
        host = "http://host.invalid:81" if proxied else s.url
        given = "/".join([host] + prefix) + "/" * int(rng.integers(0, 3))
        client.url = given
        want_url = client.url
        ctx.ok(want_url.rstrip("/") == given.rstrip("/"), "url is as assigned", got=want_url, want=given)
        proxy = dict(http=s.url) if proxied else {0: {}, 1: None, 2: dict(https="http://127.0.0.1:9")}[int(rng.integers(0, 3))]
        before_proxy = copy.deepcopy(proxy)
        if proxied or rng.uniform() < 0.5:
            client.proxy = proxy
        else:
            proxy, before_proxy = client.proxy, {}
        timeout = [30.0, (30.0, 60.0), 60][rng.integers(0, 3)]
        client.timeout = timeout
        cs = [describe(rng, i) for i in range(int(rng.integers(1, 7)))]
        for i, c in enumerate(cs):
            table[str(i)] = c
        out = {}

        def one(i):
            c = cs[i]
            kw = c["kw"]
            kept = copy.deepcopy({k: v for k, v in kw.items() if k != "auth"})
            try:
                r = client.request(c["spelled"], c["api"], **kw)
            except Exception as ex:
                out[i] = ex
                return
            out[i] = (r, kept)

        threaded = len(cs) > 1 and rng.uniform() < 0.4
        if threaded:
            ts = [threading.Thread(target=one, args=(i,)) for i in range(len(cs))]
            [t.start() for t in ts]
            [t.join() for t in ts]
            ctx.tag("threads")
        seen = 0
        for i, c in enumerate(cs):
            if not threaded:
                # Rejected calls send nothing.
                if rng.uniform() < 0.25:
                    bad = str(rng.choice(["connect", "trace", "", "gett", "get ", "post/put", "GET\r\n", "pos t"]))
                    ctx.raises(ValueError, f"unsupported method {bad!r}", client.request, bad, c["api"], **c["kw"])
                    ctx.tag("rejected method")
                if rng.uniform() < 0.25:
                    ctx.raises(ValueError, "data together with JSON", client.request, c["spelled"], c["api"],
                               data=[b"x", "x", dict(a="b"), b"\0" * 1000][rng.integers(0, 4)], json=[dict(a=1), [0], "x", 1, True][rng.integers(0, 5)])
                    ctx.tag("rejected data and json")
                ctx.ok(len(s.exchanges) == seen, "a rejected call sends nothing", requests=len(s.exchanges), expected=seen)
                one(i)
                seen += 1
                ctx.ok(len(s.exchanges) == seen, "each call sends exactly one request", requests=len(s.exchanges), expected=seen)
            ctx.event()
            check(ctx, s, c, i, out[i], prefix, host if proxied else None)
            ctx.ok(client.url == want_url and client.proxy is proxy and proxy == before_proxy and client.timeout == timeout, "url, proxy and timeout are left unchanged",
                   url=client.url, proxy=client.proxy, timeout=client.timeout)
            ctx.sig(c["spelled"], c["api"], sorted(c["kw"].get("item") or ()), c["body"], c["status"])
            ctx.tag(f"method {c['method']}", f"body {c['body']}", *(["no body"] if not c["payload"] else []), *(["large body"] if len(c["payload"]) > 50000 else []),
                    *(["chunked"] if c["form"] == "chunked" and c["payload"] else []), *(["compressed"] if c["form"] == "gzip" and c["payload"] else []),
                    *(["auth"] if "auth" in c["kw"] else []), *(["slashes"] if c["api"].strip("/") != c["api"] else []),
                    *(["unicode path"] if not c["api"].isascii() else []))
        ctx.ok(len(s.exchanges) == len(cs), "each call sends exactly one request", requests=len(s.exchanges), calls=len(cs))
        ctx.ok(not s.faults, "requests are well formed", faults=s.faults)
        ctx.tag(*(["prefix"] if prefix else []), *(["proxy"] if proxied else []))
        ctx.note(url=given, calls=[(c["spelled"], c["api"], c["body"], c["status"], c["form"]) for c in cs], threads=threaded)
        for i, c in enumerate(cs):  # Still readable after everything, and after the service is gone.
            r = out[i][0]
            ctx.ok(r.content == c["payload"], "body stays readable", call=i)
    finally:
        s.end()


def check(ctx, s, c, i, got, prefix, host):
    if isinstance(got, Exception):
        ctx.fail("a call that is answered returns", call=(c["spelled"], c["api"], c["body"], c["status"], c["form"]), error=f"{type(got).__name__}: {got}")
    r, kept = got
    kw = c["kw"]
    es = [e for e in s.exchanges if e.header("x-call") == [str(i)]]
    ctx.ok(len(es) == 1, "each call sends exactly one request", arrived=len(es))
    e = es[0]
    ctx.ok({k: v for k, v in kw.items() if k != "auth"} == kept, "arguments are left unchanged", got=kw, want=kept)
    ctx.ok(e.method == c["method"].upper(), "method", got=e.method, want=c["method"])
    target = e.target
    if host:
        ctx.ok(target.startswith(host), "the proxy is asked for the host of the URL", target=target)
        target = target[len(host):]
    path, _, query = target.partition("?")
    want = "/" + "/".join(prefix + c["segments"])
    ctx.ok(urllib.parse.unquote(path) == urllib.parse.unquote(want) and path.count("/") == want.count("/"), "path joins the base URL and API", got=path, want=want, api=c["api"])
    pairs = urllib.parse.parse_qsl(query, keep_blank_values=True, strict_parsing=bool(query))
    if len(pairs) > 4:
        ctx.tag("many items")
    ctx.ok(pairs == list((kw.get("item") or {}).items()), "query items, in the order given", got=pairs, want=kw.get("item"))
    known = {"host", "user-agent", "accept", "accept-encoding", "connection", "content-length", "content-type", "authorization", "x-token", "transfer-encoding", "proxy-connection"}
    known |= {k.lower() for k in kw["header"]}
    ctx.ok(not e.header("cookie"), "no cookie of an earlier response is sent", got=e.header("cookie"))
    ctx.ok(all(k.lower() in known for k, _ in e.headers), "no header but those given and those of HTTP itself", got=[k for k, _ in e.headers if k.lower() not in known])
    for k, v in kw["header"].items():
        ctx.ok(e.header(k) == [v], f"header {k}", got=e.header(k), want=v)
        ctx.ok(any(n == k for n, _ in e.headers), f"header {k} is spelled as given", got=[n for n, _ in e.headers])
    if isinstance(kw.get("auth"), tuple):
        token = "Basic " + base64.b64encode(":".join(kw["auth"]).encode()).decode()
        ctx.ok(e.header("authorization") == [token], "authentication", got=e.header("authorization"), want=token)
    elif kw.get("auth") is not None:
        ctx.ok(e.header("x-token") == [kw["auth"].v], "authentication", got=e.header("x-token"), want=kw["auth"].v)
    else:
        ctx.ok(not e.header("authorization"), "no authentication unless given", got=e.header("authorization"))
    k = c["body"]
    if k == "bytes":
        ctx.ok(e.body == kw["data"], "body of bytes", got=len(e.body), want=len(kw["data"]))
    elif k == "text":
        ctx.ok(e.body == kw["data"].encode("utf-8"), "body of text", got=e.body, want=kw["data"])
    elif k == "form":
        d = dict(urllib.parse.parse_qsl(e.body.decode(), keep_blank_values=True))
        ctx.ok(d == kw["data"], "body of a form", got=d, want=kw["data"])
    elif k in ("json", "falsy json"):
        try:
            d = json.loads(e.body)
        except ValueError:
            d = ctx.fail("body of JSON parses", got=e.body)
        ctx.ok(d == kw["json"] and type(d) is type(kw["json"]), "body of JSON", got=d, want=kw["json"])
        ctx.ok(any("application/json" in v for v in e.header("content-type")), "JSON is declared", got=e.header("content-type"))
    else:
        ctx.ok(e.body == b"", "no body unless given", got=e.body)
    ctx.ok(r.status_code == c["status"], "status", got=r.status_code, want=c["status"])
    ctx.ok(r.reason == c["reason"], "reason", got=r.reason, want=c["reason"])
    for k, v in c["reply"]:
        ctx.ok(r.headers.get(k) == v, f"response header {k}", got=r.headers.get(k), want=v)
    ctx.ok(r.content == c["payload"], "response body", got=len(r.content), want=len(c["payload"]))
    ctx.ok(b"".join(r.iter_content(1000)) == c["payload"], "response body by pieces")
    ctx.ok(r.ok and not r.history, "response is final")


KINDS = dict(calls=Kind(calls, 6000, 60000))
