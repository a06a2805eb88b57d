"""P22: handlers and interceptors see truthful call information."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from connectrpc.request import Headers

from .. import http, msgs, rpc, vclock, wire
from ..core import Part, check

PID = "P22"
LEVEL = "exploration"
RULE = (
    "non-trivial: the address is IPv6, has no port, a path prefix or the https scheme, or the peer "
    "is IPv6 or unknown, or the call is a GET"
)
ASSUMPTIONS = [
    "host names, IPv4 and bracketed IPv6 literals with or without a port; no empty host or port",
]
QUICK_BUDGET = 100.0

NAME = st.one_of(
    st.sampled_from(["localhost", "example.com", "a", "api-1.internal", "xn--bcher-kva.example", "10.0.0.1", "127.0.0.1", "2130706433", "1", "80"]),
    st.from_regex(r"[a-z][a-z0-9\-]{0,8}(\.[a-z]{2,4}){0,2}", fullmatch=True),
)
V6 = st.sampled_from(["[::1]", "[2001:db8::1]", "[fe80::1:2:3:4]", "[::ffff:10.0.0.1]", "[::]"])
PORT = st.one_of(st.none(), st.integers(1, 65535), st.sampled_from([80, 443, 8080]))
PEER = st.one_of(
    st.none(),
    st.tuples(
        st.sampled_from(["127.0.0.1", "10.1.2.3", "::1", "2001:db8::7", "fe80::1%eth0", "client.example"]),
        st.one_of(st.just(0), st.integers(1, 65535)),
    ),
)


def want_address(host: str, port: int | None, scheme: str) -> str:
    return f"{host}:{port if port is not None else (443 if scheme == 'https' else 80)}"


class Grab:
    """Interceptor for every kind that records the context it is given."""

    def __init__(self, out: list) -> None:
        self.out = out

    def _see(self, where: str, ctx: Any) -> None:
        self.out.append((where, ctx.method, ctx.http_method, ctx.server_address, ctx.client_address, list(ctx.request_headers.allitems())))


class GrabAsync(Grab):
    async def intercept_unary(self, call_next: Any, request: Any, ctx: Any) -> Any:
        self._see("wrap", ctx)
        return await call_next(request, ctx)

    async def intercept_client_stream(self, call_next: Any, request: Any, ctx: Any) -> Any:
        self._see("wrap", ctx)
        return await call_next(request, ctx)

    def intercept_server_stream(self, call_next: Any, request: Any, ctx: Any) -> Any:
        self._see("wrap", ctx)
        return call_next(request, ctx)

    def intercept_bidi_stream(self, call_next: Any, request: Any, ctx: Any) -> Any:
        self._see("wrap", ctx)
        return call_next(request, ctx)


class GrabSync(Grab):
    def intercept_unary_sync(self, call_next: Any, request: Any, ctx: Any) -> Any:
        self._see("wrap", ctx)
        return call_next(request, ctx)

    intercept_client_stream_sync = intercept_unary_sync
    intercept_server_stream_sync = intercept_unary_sync
    intercept_bidi_stream_sync = intercept_unary_sync


class GrabMeta(Grab):
    async def on_start(self, ctx: Any) -> None:
        self._see("start", ctx)

    async def on_end(self, token: Any, ctx: Any, error: Any) -> None:
        self._see("end", ctx)


class GrabMetaSync(Grab):
    def on_start_sync(self, ctx: Any) -> None:
        self._see("start", ctx)

    def on_end_sync(self, token: Any, ctx: Any, error: Any) -> None:
        self._see("end", ctx)


def grabs(flavour: str, out: list) -> list:
    return [GrabAsync(out), GrabMeta(out)] if flavour in ("asgi", "async") else [GrabSync(out), GrabMetaSync(out)]


def check_seen(seen: list, kind: str, http_method: str, address: str | None) -> None:
    check([s[0] for s in seen] == ["wrap", "start", "end"], "interceptor-events", seen)
    for where, method, hm, sa, ca, _h in seen:
        check(method == rpc.method_info(kind), "method-info", f"{where}: {method}")
        check(hm == http_method, "http-method", f"{where}: {hm} want {http_method}")
        check(sa == address, "server-address", f"{where}: {sa!r} want {address!r}")


def server_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "flavour": st.sampled_from(["asgi", "wsgi"]),
            "kind": st.sampled_from(rpc.KINDS),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "get": st.booleans(),
            "host": st.one_of(st.none(), NAME, NAME, V6),
            "port": PORT,
            "scheme": st.sampled_from(["http", "https"]),
            "peer": PEER,
            "peer_port": st.booleans(),
            "root": st.sampled_from(["", "/vt.v1.Vt"]),
            "error": st.booleans(),
            "headers": rpc.HEADER_LIST,
            "noise": rpc.NOISE,
        }
    )


def server_test(c: dict, rec) -> None:
    flavour, kind, protocol = c["flavour"], c["kind"], c["protocol"]
    unary = kind in ("unary", "get")
    seen: list = []
    svc = rpc.Script(ress=[{"text": "r"}], error={"code": "aborted", "message": "m", "details": []} if c["error"] else None)
    app = rpc.make_app(flavour, svc, interceptors=grabs(flavour, seen))
    is_get = c["get"] and kind == "get" and protocol == "connect"
    hs = [*c["headers"], *c["noise"]]
    if c["host"] is not None:
        hs.append(("host", c["host"] if c["port"] is None else f"{c['host']}:{c['port']}"))
        want = want_address(c["host"], c["port"], c["scheme"])
    else:
        want = None
    path, root = rpc.path(kind), ""
    if c["root"]:
        root = "/vt.v1.Vt" if flavour == "wsgi" else "/mnt"
        path = "/" + rpc.METHOD_NAME[kind] if flavour == "wsgi" else path
    peer = c["peer"]
    if flavour == "wsgi" and peer and not c["peer_port"]:
        peer = (peer[0], None)
    kw = dict(scheme=c["scheme"], client=peer, root=root)
    if is_get:
        out = http.call(flavour, app, "GET", path, hs, b"", query="connect=v1&encoding=json&message=%7B%7D", **kw)
    else:
        h, body = wire.build_request(protocol, unary, "json", [b"{}"], encoding="identity", accept=[], headers=hs)
        out = http.call(flavour, app, "POST", path, h, body, **kw)
    check(out.exc is None and out.status in (200, 409), "call-failed", lambda: f"{out.status} {out.exc!r} {out.body!r}")
    check(len(svc.seen) == 1 and svc.seen[0].kind == kind, "handler", svc.seen)
    s = svc.seen[0]
    hm = "GET" if is_get else "POST"
    check_seen(seen, kind, hm, want)
    check(s.method == rpc.method_info(kind), "handler-method-info", s.method)
    check(s.http_method == hm, "handler-http-method", s.http_method)
    check(s.server_address == want, "handler-server-address", f"{s.server_address!r} want {want!r}")
    for ca in [s.client_address, *(x[4] for x in seen)]:
        if peer is None:
            check(ca is None, "client-address-invented", repr(ca))
        else:
            check(isinstance(ca, str), "client-address-missing", repr(ca))
            addr, _, port = ca.rpartition(":")
            check(addr.strip("[]") == peer[0], "client-address", f"{ca!r} for {peer}")
            if peer[1] is not None:
                check(port == str(peer[1]), "client-port", f"{ca!r} for {peer}")
            else:
                check(port == "0", "client-port-invented", f"{ca!r} for {peer}")
    rec.label(f"{flavour}/{protocol}/{kind}")
    if c["host"] is None:
        rec.label("no host header")
    if is_get or c["port"] is None or (c["host"] or "").startswith("[") or c["scheme"] == "https" or not peer or ":" in peer[0]:
        rec.nontrivial("server " + hm)


def client_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "flavour": st.sampled_from(["async", "sync"]),
            "kind": st.sampled_from(rpc.KINDS),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "get": st.booleans(),
            "host": st.one_of(NAME, NAME, V6),
            "port": PORT,
            "scheme": st.sampled_from(["http", "https"]),
            "prefix": st.sampled_from(["", "", "/api", "/api/v1", "/a:b/c", "/x/y:9"]),
            "headers": rpc.HEADER_LIST,
        }
    )


def client_test(c: dict, rec) -> None:
    kind, protocol = c["kind"], c["protocol"]
    unary = kind in ("unary", "get")
    stream = not (protocol == "connect" and unary)
    payload = msgs.ref_encode("proto", msgs.g_res({"text": "r"}))
    ch = [("content-type", wire.content_type(protocol, "proto", stream))]
    if stream:
        end, tr = wire.end_of_stream(protocol, None, [])
        canned = http.Canned(200, ch, [wire.env(0, payload) + end], tr)
    else:
        canned = http.Canned(200, ch, [payload])
    seen: list = []
    address = f"{c['scheme']}://{c['host']}" + (f":{c['port']}" if c["port"] is not None else "") + c["prefix"]
    kw = dict(protocol=rpc.PROTOCOLS[protocol], send_compression=None, interceptors=grabs(c["flavour"], seen))
    call = dict(use_get=c["get"] and kind == "get", headers=Headers(c["headers"]))
    reqs = [rpc.mk_req("py", {"text": "q"})]
    if c["flavour"] == "async":
        t = http.CannedAsync(lambda _s: canned)
        r = vclock.run(lambda: rpc.acall(rpc.aclient(t, address, **kw), kind, reqs, **call)).value
    else:
        t = http.CannedSync(lambda _s: canned)
        r = rpc.scall(rpc.sclient(t, address, **kw), kind, reqs, **call)
    check(r.error is None, "call-failed", lambda: repr(r.error))
    check(len(t.requests) == 1, "request-count", len(t.requests))
    hm = t.requests[0].method
    check(hm == ("GET" if call["use_get"] and protocol == "connect" else "POST"), "sent-http-method", hm)
    check_seen(seen, kind, hm, want_address(c["host"], c["port"], c["scheme"]))
    for s in seen:
        check(s[4] is None, "client-address-on-client", repr(s[4]))
        got = Headers(s[5])
        for k, _ in c["headers"]:
            check(list(got.getall(k)) == [v for kk, v in c["headers"] if kk == k], "request-headers", lambda: f"{k}: {s[5]}")
    rec.label(f"{c['flavour']}/{protocol}/{kind}")
    if c["prefix"] or c["port"] is None or c["host"].startswith("[") or c["scheme"] == "https" or hm == "GET":
        rec.nontrivial("client " + hm)


PARTS = [
    Part("server", server_strategy, server_test, quick=5000, shards=4),
    Part("client", client_strategy, client_test, quick=5000, shards=4),
]
