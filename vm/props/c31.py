import gc
import socket
import threading
import time

import diamondback as db

from vm.engine import Kind
from vm.service import Service, reply

RULE = ("Each case runs a history of 2 to 7 calls of request and live of one client against a loopback service that records connections and requests "
        "and answers each as drawn: any status, a delay within the timeout, no answer within the timeout (before the status line, inside the headers, "
        "or inside the body), a connection dropped or reset before, during or after the headers, a body cut short of its length or of its chunks, a "
        "malformed answer, or a refused connection. The outcome, the number of requests that arrived, and the release of every connection (end of file "
        "seen by the service once the caller has dropped the response or the exception) are judged. Signatures are (sequence of (call, answer)).")
ASSUMPTIONS = ["statuses 200 to 599 without redirection", "timeouts of 0.15 to 0.3 s against answers withheld for 3 s, and of 30 s where an answer is expected", "a connection counts as released when the service sees it end within 10 s"]
FAULTS = ("error", "drop", "reset", "drop in headers", "short", "short chunked", "garbage", "silent", "silent in headers", "silent in body", "refused", "unknown host")
REACH = [f"request {k}" for k in FAULTS] + [f"live {k}" for k in FAULTS if k not in ("short", "short chunked", "silent in body")] + [
    "request success", "live success", "usable after failure", "slow success", "timeout pair", "bad url", "live proxy", "request proxy"]
METHODS = ("delete", "get", "options", "patch", "post", "put")
BAD_URL = (None, "", "no scheme", "http://", "ftp://127.0.0.1/", "http://127.0.0.1:notaport", "://", "http://[::1", "\x00", "http://127.0.0.1:70000")
WITHHELD = 3.0


EXTRA = ([], [("Retry-After", "1")], [("WWW-Authenticate", "Basic realm=x")], [("Server", "down"), ("Retry-After", "120")], [("Warning", "199 - stale")], [("X-Error", "0")],
         [("Proxy-Authenticate", "Basic")], [("Allow", "GET")], [("Cache-Control", "no-store"), ("Set-Cookie", "a=b")])
REASONS = ("Fine", "", "OK", "Internal Server Error", "Na\u00efve", "x" * 200)


def act(what, status, head, send, close, returned, reason="Fine", extra=()):
    body = b"0123456789" * 5
    if what == "success" or what == "error":
        if head or status in (204, 304):
            send(reply(status, reason, extra, length=False))
        else:
            send(reply(status, reason, extra, body=body))
    elif what == "slow success":
        time.sleep(0.12)
        send(reply(status, reason, body=b"" if head else body))
    elif what == "drop":
        close()
    elif what == "reset":
        close(True)
    elif what == "drop in headers":
        send(b"HTTP/1.1 ")
        close()
    elif what == "short":
        send(b"HTTP/1.1 200 Fine\r\nContent-Length: 500\r\n\r\n" + body)
        close()
    elif what == "short chunked":
        send(b"HTTP/1.1 200 Fine\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n01234\r\n20\r\n012")
        close()
    elif what == "garbage":
        send(b"\x00\x01 nothing like HTTP\r\n\r\n")
        close()
    elif what == "silent":
        returned.wait(WITHHELD)
        send(reply(200, body=b"" if head else body))
    elif what == "silent in headers":
        send(b"HTTP/1.1 200 Fine\r\nContent-")
        returned.wait(WITHHELD)
        send(b"Length: 0\r\n\r\n")
    elif what == "silent in body":
        send(b"HTTP/1.1 200 Fine\r\nContent-Length: 50\r\n\r\n" + body[:10])
        returned.wait(WITHHELD)
        send(body[10:])


def history(ctx):
    rng = ctx.rng
    now = {}

    def plan(e, send, close):
        act(now["what"], now["status"], e.method == "HEAD", send, close, now["returned"], now["reason"], now["extra"])

    s = Service(plan)
    failed = False
    trace = []
    # A port nobody listens on for as long as this socket is bound.
    vacant = socket.socket()
    vacant.bind(("127.0.0.1", 0))
    gone = f"http://127.0.0.1:{vacant.getsockname()[1]}"
    try:
        client = db.RestClient()
        for _ in range(int(rng.integers(2, 8))):
            call = "request" if rng.uniform() < 0.55 else "live"
            what = str(rng.choice(["success", "success", "slow success", *FAULTS]))
            if what.startswith("silent") and rng.uniform() < 0.3:
                what = "error"
            if call == "live" and what in ("short", "short chunked", "silent in body"):
                what = "error"
            if call == "live" and what in ("refused", "unknown host", "garbage", "reset") and rng.uniform() < 0.5:
                what = "error"
            status = int(rng.choice([400, 401, 403, 404, 405, 408, 409, 418, 429, 499, 500, 501, 502, 503, 504, 599])) if what == "error" else int(
                rng.choice([200, 200, 201, 203, 206, 299, 300, 304, 399] if what == "success" else [200, 201]))
            if what == "error" and rng.uniform() < 0.4:
                status = int(rng.choice([401, 404, 429, 500, 502, 503]))
            if call == "live" and what == "error" and rng.uniform() < 0.3:
                status = int(rng.integers(400, 600))
            now.update(what=what, status=status, returned=threading.Event(), reason=REASONS[rng.integers(0, len(REASONS))], extra=EXTRA[rng.integers(0, len(EXTRA))])
            # The host, and a proxy before a host that does not exist.
            base, proxy = {"refused": gone, "unknown host": "http://host.invalid:81"}.get(what, s.url), {}
            if what != "unknown host" and rng.uniform() < 0.25:
                base, proxy = "http://host.invalid:81", dict(http=base)
                ctx.tag(f"{call} proxy")
            client.url = base + ("", "", "/base", "/base/v1", "/a/b/c/d")[rng.integers(0, 5)]
            client.proxy = proxy
            t = float(rng.uniform(0.15, 0.3)) if what.startswith("silent") else 30.0
            client.timeout = (30.0, t) if rng.uniform() < 0.5 else t
            if isinstance(client.timeout, tuple):
                ctx.tag("timeout pair")
            kept = (client.url, client.timeout, dict(client.proxy))
            requests, connections = len(s.exchanges), s.connections
            start = time.monotonic()
            if call == "request":
                method = str(rng.choice(METHODS + (("head",) if what in ("success", "error", "drop", "refused") else ())))
                kw = {0: {}, 1: dict(data=b"abc" * int(rng.integers(1, 200))), 2: dict(json=dict(a=1)), 3: dict(item=dict(q="1"))}[int(rng.integers(0, 4))]
                try:
                    r = client.request(method, "api", **kw)
                except Exception as ex:
                    r = ex
                if what in ("success", "slow success"):
                    ctx.ok(not isinstance(r, Exception), "a call that is answered returns", status=status, error=repr(r), after=trace)
                    ctx.ok(r.status_code == status, "status", got=r.status_code, want=status)
                    empty = method == "head" or status in (204, 304)
                    ctx.ok(r.content == (b"" if empty else b"0123456789" * 5), "body", got=r.content)
                    ctx.tag("request success", *(["usable after failure"] if failed else []), *(["slow success"] if what == "slow success" else []))
                else:
                    ctx.ok(isinstance(r, Exception), "a failure is raised, never returned", answer=what, status=status, method=method, returned=repr(r), timeout=client.timeout)
                    ctx.tag(f"request {what}")
                    failed = True
            else:
                try:
                    r = client.live
                except Exception as ex:
                    ctx.fail("live never raises", answer=what, error=repr(ex))
                want = what in ("success", "slow success", "error")
                ctx.ok(r is want or r == want and isinstance(r, (bool, int)), "live is true exactly when the service answers", got=r, want=want, answer=what, status=status, timeout=client.timeout)
                ctx.tag("live success" if what in ("success", "slow success") else f"live {what}")
            now["returned"].set()
            took = time.monotonic() - start
            ctx.event()
            sent = len(s.exchanges) - requests
            ctx.ok(sent == (what not in ("refused", "unknown host")), "exactly one request is made, never another", arrived=sent, answer=what, call=call)
            ctx.ok(s.connections - connections <= 1, "one connection is made", made=s.connections - connections, answer=what, call=call)
            if call == "live" and sent:
                e = s.exchanges[-1]
                path = client.url if proxy else client.url[len(s.url):]
                ctx.ok(e.method == "HEAD" and e.target.rstrip("/") == path, "live asks with HEAD at the URL", method=e.method, target=e.target, want=path)
            ctx.ok((client.url, client.timeout, dict(client.proxy)) == kept, "url, timeout and proxy are left unchanged")
            r = None
            gc.collect()
            ctx.ok(s.settled(), "connection is released", answer=what, call=call, status=status, open=s.connections - s.released, seconds=took)
            trace.append((call, what, status))
        if rng.uniform() < 0.3:
            client.url = BAD_URL[rng.integers(0, len(BAD_URL))]
            try:
                r = client.live
            except Exception as ex:
                ctx.fail("live never raises", url=client.url, error=repr(ex))
            ctx.ok(r is False or r == 0, "live is false where nothing answers", url=client.url, got=r)
            ctx.tag("bad url")
        ctx.ok(s.settled(), "connections are released", open=s.connections - s.released, calls=trace)
        n = len(s.exchanges)
        ctx.ok(n == sum(c[1] not in ("refused", "unknown host") for c in trace), "nothing is sent later", arrived=n, calls=trace)
        ctx.ok(not s.faults, "requests are well formed", faults=s.faults)
        ctx.note(calls=trace)
        ctx.sig(trace)
    finally:
        vacant.close()
        s.end()


KINDS = dict(history=Kind(history, 260, 5000))
