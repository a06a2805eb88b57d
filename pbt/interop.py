"""Calls over real sockets: against grpcio, an independent gRPC implementation, and between the
library's own clients and applications in real HTTP servers. Used by P01, P04, P05, P06 and P11."""

from __future__ import annotations

import asyncio
import functools
import threading
import time
from base64 import b64decode, b64encode
from typing import Any

import pyqwest
from hypothesis import strategies as st

from connectrpc.client import ResponseMetadata

from . import msgs, rpc, sock, wire
from .core import check
from .gen import vt_pb2 as G

TIMEOUT = 20.0  # far above what any call takes


def b64(v: bytes) -> str:
    return b64encode(v).decode().rstrip("=")


META_NAME = st.sampled_from(["x-a", "x-b", "x-request-id", "authorization", "foo", "x-trailerish", "a1_b", "x-c.d", "etag"])
META = st.lists(
    st.one_of(
        st.tuples(META_NAME, rpc.HEADER_VALUE),
        st.tuples(st.sampled_from(["x-bin", "custom-bin"]), st.binary(max_size=12).map(b64)),
    ),
    max_size=4,
)
BIG = 70000


def messages(kind: str, streams: tuple, one: Any) -> st.SearchStrategy:
    return st.lists(one, max_size=5) if kind in streams else st.lists(one, min_size=1, max_size=1)


def grpcio_meta(md: Any, names: set) -> list:
    """Values by name; grpcio decodes binary ones."""
    out: dict = {n: [] for n in names}
    for k, v in md or ():
        if k in names:
            out[k] += [b64(v)] if isinstance(v, bytes) else [v]
    return sorted(out.items())


def meta(md: list, names: set) -> list:
    return sorted((n, [v for k, v in md if k == n]) for n in names)


# -- grpcio calls an application of the library ------------------------------------------------


def server_strategy() -> st.SearchStrategy:
    def build(kind: str) -> st.SearchStrategy:
        return st.fixed_dictionaries(
            {
                "kind": st.just(kind),
                "rt": st.sampled_from(["py", "google"]),
                "srv": st.sampled_from([None, [], ["gzip"], ["zstd", "gzip"]]),
                "send": st.sampled_from(["identity", "gzip"]),
                "reqs": messages(kind, ("client", "bidi"), msgs.reqs(BIG)),
                "ress": messages(kind, ("server", "bidi"), msgs.ress(BIG)),
                "error": st.one_of(st.none(), rpc.ERRORS),
                "req_meta": META,
                "headers": META,
                "trailers": META,
                "late": META,
                "interleave": st.one_of(st.none(), st.just([1])) if kind == "bidi" else st.none(),
            }
        )

    return st.sampled_from(rpc.KINDS).flatmap(build)


GRPCIO_METHOD = {"unary": "unary_unary", "get": "unary_unary", "client": "stream_unary", "server": "unary_stream", "bidi": "stream_stream"}


def server_test(c: dict, rec: Any) -> None:
    slot, port = sock.hypercorn()
    channel = sock.grpc_channel(port)
    import grpc

    kind = c["kind"]
    srv = c["srv"]
    if c["send"] == "gzip" and srv is not None and "gzip" not in srv:
        srv = [*srv, "gzip"]
    svc = rpc.Script(
        rt=c["rt"], ress=c["ress"], error=c["error"], interleave=c["interleave"],
        res_headers=c["headers"], res_trailers=c["trailers"], late_trailers=c["late"],
    )
    slot.app = rpc.make_app("asgi", svc, rt=c["rt"], compressions=rpc.comps(srv))
    fn = getattr(channel, GRPCIO_METHOD[kind])(
        rpc.path(kind), request_serializer=G.Req.SerializeToString, response_deserializer=G.Res.FromString
    )
    reqs = [msgs.g_req(r) for r in c["reqs"]]
    kw: dict = dict(
        timeout=TIMEOUT,
        metadata=[(k, b64decode(v + "=" * (-len(v) % 4)) if k.endswith("-bin") else v) for k, v in c["req_meta"]],
        compression=grpc.Compression.Gzip if c["send"] == "gzip" else grpc.Compression.NoCompression,
    )
    got: list = []
    try:
        if kind in ("unary", "get"):
            m, call = fn.with_call(reqs[0], **kw)
            got.append(m)
        elif kind == "client":
            m, call = fn.with_call(iter(reqs), **kw)
            got.append(m)
        else:
            call = fn(reqs[0] if kind == "server" else iter(reqs), **kw)
            for m in call:
                got.append(m)
    except grpc.RpcError as e:
        call = e
    code = call.code().name.lower()  # type: ignore[attr-defined]
    trailing = list(call.trailing_metadata() or ())  # type: ignore[attr-defined]
    got = [msgs.norm(m) for m in got]
    want = [msgs.nres(r) for r in c["ress"]]
    if c["error"] is None:
        check(code == "ok", "grpcio-call-failed", lambda: f"{code} {call.details()}")
        check(got == want, "grpcio-responses-differ", lambda: f"{got} want {want}")
    else:
        err = rpc.expected_error(c["error"])
        check(code == err.code.replace("canceled", "cancelled"), "grpcio-code-differs", f"{code} {call.details()} want {err}")
        check((call.details() or "") == (err.message or ""), "grpcio-message-differs", lambda: f"{call.details()!r} want {err}")
        check(got == (want if kind in ("server", "bidi") else []), "grpcio-responses-differ", lambda: f"{got} want {want}")
        raw = [v for k, v in trailing if k == "grpc-status-details-bin"]
        details: list = []
        if raw:
            check(len(raw) == 1, "grpcio-several-details", raw)
            code_no, _, details = wire.parse_status(raw[0])
            check(code_no == wire.CODES[err.code][0], "grpcio-details-code", code_no)
        check(details == err.details, "grpcio-details-differ", f"{details} want {err.details}")
    check(len(svc.seen) == 1, "handler-invocations", len(svc.seen))
    s = svc.seen[0]
    wreq = [msgs.nreq(r) for r in c["reqs"]]
    check(s.reqs == wreq and s.ended, "grpcio-requests-differ", lambda: f"{s.reqs} want {wreq}")
    check(s.timeout_ms is not None and s.timeout_ms <= TIMEOUT * 1000 + 1000, "grpcio-timeout", s.timeout_ms)
    names = {k for k, _ in c["req_meta"]}
    check(_joined(meta(s.headers, names)) == _joined(meta(c["req_meta"], names)), "grpcio-request-metadata-differs", lambda: f"{s.headers} want {c['req_meta']}")
    names = {k for k, _ in c["headers"]}
    first = grpcio_meta(call.initial_metadata(), names)  # type: ignore[attr-defined]
    check(_joined(first) == _joined(meta(c["headers"], names)), "grpcio-headers-differ", lambda: f"{first} want {c['headers']}")
    tr = c["trailers"] + c["late"]
    names = {k for k, _ in tr}
    last = grpcio_meta(trailing, names)
    check(_joined(last) == _joined(meta(tr, names)), "grpcio-trailers-differ", lambda: f"{last} want {tr}")
    rec.label(kind)
    rec.label(code)
    if (len(c["ress"]) > 1) + (c["error"] is not None) + bool(c["headers"]) + bool(tr) + (c["send"] == "gzip") >= 2:
        rec.nontrivial(f"grpcio {kind}")


def _joined(md: list) -> list:
    """Repeated values may be joined with commas on the way."""
    return [(k, ",".join(x.strip() for v in vs for x in v.split(","))) for k, vs in md]


# -- clients of the library call a grpcio server -----------------------------------------------


def client_strategy() -> st.SearchStrategy:
    def build(kind: str) -> st.SearchStrategy:
        return st.fixed_dictionaries(
            {
                "kind": st.just(kind),
                "flavour": st.sampled_from(["async", "sync"]),
                "rt": st.sampled_from(["py", "google"]),
                "send": st.sampled_from([None, "gzip"]),
                "accept": st.sampled_from([None, [], ["gzip"], ["zstd", "gzip"]]),
                "answer": st.sampled_from(["identity", "gzip"]),
                "reqs": messages(kind, ("client", "bidi"), msgs.reqs(BIG)),
                "ress": messages(kind, ("server", "bidi"), msgs.ress(BIG)),
                "error": st.one_of(st.none(), rpc.CONNECT_ERRORS),
                "early": st.booleans(),
                "timeout": st.sampled_from([None, 60_000, 99_999_999, 100_000_000, 3_600_001]),
                "req_meta": META,
                "headers": META,
                "trailers": META,
            }
        )

    return st.sampled_from(rpc.KINDS).flatmap(build)


def _bin(md: list) -> list:
    return [(k, b64decode(v + "=" * (-len(v) % 4)) if k.endswith("-bin") else v) for k, v in md]


@functools.cache
def runner() -> asyncio.Runner:
    return asyncio.Runner()


@functools.cache
def transport(flavour: str, version: str) -> Any:
    v = {"1": pyqwest.HTTPVersion.HTTP1, "2": pyqwest.HTTPVersion.HTTP2}[version]
    return pyqwest.HTTPTransport(http_version=v) if flavour == "async" else pyqwest.SyncHTTPTransport(http_version=v)


def make_call(flavour: str, version: str, port: int, kind: str, reqs: list, rt: str, call: dict, host: str = sock.HOST, **kw: Any) -> tuple:
    """Result, response headers and trailers."""
    addr = f"http://{host}:{port}"
    if flavour == "async":

        async def go() -> tuple:
            with ResponseMetadata() as md:
                r = await rpc.acall(rpc.aclient(transport("async", version), addr, **kw), kind, reqs, rt=rt, **call)
                return r, list(md.headers.allitems()), list(md.trailers.allitems())

        return runner().run(go())
    with ResponseMetadata() as md:
        r = rpc.scall(rpc.sclient(transport("sync", version), addr, **kw), kind, reqs, rt=rt, **call)
        return r, list(md.headers.allitems()), list(md.trailers.allitems())


def client_test(c: dict, rec: Any) -> None:
    import grpc

    srv = sock.grpcio_server()
    kind, rt = c["kind"], c["rt"]
    seen: dict = {"reqs": [], "calls": 0}
    ress = [msgs.g_res(r) for r in c["ress"]]
    err = rpc.expected_error(c["error"]) if c["error"] else None

    def begin(ctx: Any) -> None:
        seen["calls"] += 1
        seen["meta"] = list(ctx.invocation_metadata())
        seen["left"] = ctx.time_remaining()
        # grpcio compresses whatever the client accepts
        gzip = c["answer"] == "gzip" and (c["accept"] is None or "gzip" in c["accept"])
        ctx.set_compression(grpc.Compression.Gzip if gzip else grpc.Compression.NoCompression)
        if c["headers"]:
            ctx.send_initial_metadata(_bin(c["headers"]))

    def end(ctx: Any) -> None:
        tr = _bin(c["trailers"])
        if err is not None:
            if err.details:
                tr.append(("grpc-status-details-bin", wire.status_bytes(wire.CODES[err.code][0], err.message, err.details)))
            ctx.set_code(next(x for x in grpc.StatusCode if x.value[0] == wire.CODES[err.code][0]))
            ctx.set_details(err.message)
        ctx.set_trailing_metadata(tr)

    def one(request: Any, ctx: Any) -> Any:
        begin(ctx)
        seen["reqs"] += [request] if isinstance(request, G.Req) else list(request)
        end(ctx)
        return ress[0] if err is None else G.Res()

    def many(request: Any, ctx: Any) -> Any:
        begin(ctx)
        seen["reqs"] += [request] if isinstance(request, G.Req) else list(request)
        if err is None or not c["early"]:
            yield from ress
        end(ctx)

    factory = {"unary": grpc.unary_unary_rpc_method_handler, "get": grpc.unary_unary_rpc_method_handler,
               "client": grpc.stream_unary_rpc_method_handler, "server": grpc.unary_stream_rpc_method_handler,
               "bidi": grpc.stream_stream_rpc_method_handler}[kind]
    h = factory(many if kind in ("server", "bidi") else one, request_deserializer=G.Req.FromString, response_serializer=G.Res.SerializeToString)
    srv.handler = lambda d: h if d.method == rpc.path(kind) else None
    r, headers, trailers = make_call(
        c["flavour"], "2", srv.port, kind, [rpc.mk_req(rt, q) for q in c["reqs"]], rt,
        {"headers": rpc_headers(c["req_meta"]), "timeout_ms": c["timeout"]},
        protocol=rpc.PROTOCOLS["grpc"], codec=rpc.codec("proto", rt),
        send_compression=rpc.comp(c["send"]) if c["send"] else None, accept_compression=rpc.comps(c["accept"]),
    )
    check(seen["calls"] == 1, "grpcio-handler-invocations", lambda: f"{seen['calls']} {r.error!r}")
    got = [msgs.norm(m) for m in seen["reqs"]]
    wreq = [msgs.nreq(q) for q in c["reqs"]]
    check(got == wreq, "grpcio-requests-differ", lambda: f"{got} want {wreq}")
    names = {k for k, _ in c["req_meta"]}
    gm = grpcio_meta(seen["meta"], names)
    check(_joined(gm) == _joined(meta(c["req_meta"], names)), "grpcio-request-metadata-differs", lambda: f"{gm} want {c['req_meta']}")
    left = seen["left"]
    if c["timeout"] is None:
        check(left is None or left > 1e8, "grpcio-deadline-without-timeout", left)
    else:
        check(left is not None and c["timeout"] / 1000 - 30 - c["timeout"] / 1e6 <= left <= c["timeout"] / 1000 + 0.01, "grpcio-deadline-differs", f"{left} want {c['timeout']} ms")
    want = [msgs.nres(x) for x in c["ress"]]
    if err is None:
        check(r.error is None, "grpcio-call-failed", lambda: repr(r.error) + " cause " + repr(r.error.__cause__))
        check(r.messages == want, "grpcio-responses-differ", lambda: f"{r.messages} want {want}")
    else:
        check(r.error is not None, "grpcio-no-error", lambda: f"{r.messages} want {err}")
        o = rpc.observed_error(r.error)
        check(o == err, "grpcio-error-differs", f"{o} want {err}")
        if kind in ("server", "bidi"):
            check(r.messages == ([] if c["early"] else want), "grpcio-responses-differ", lambda: f"{r.messages} want {want}")
    names = {k for k, _ in c["headers"]}
    check(_joined(meta(headers, names)) == _joined(meta(c["headers"], names)), "grpcio-headers-differ", lambda: f"{headers} want {c['headers']}")
    names = {k for k, _ in c["trailers"]}
    check(_joined(meta(trailers, names)) == _joined(meta(c["trailers"], names)), "grpcio-trailers-differ", lambda: f"{trailers} want {c['trailers']}")
    rec.label(f"{c['flavour']} {kind}")
    if (len(c["ress"]) > 1) + (err is not None) + bool(c["headers"]) + bool(c["trailers"]) + bool(c["send"]) >= 2:
        rec.nontrivial(f"grpcio {c['flavour']} {kind}")


def rpc_headers(md: list) -> Any:
    from connectrpc.request import Headers

    return Headers(md)


# -- the library's clients and applications ----------------------------------------------------

PAIRS = ["async-1", "async-2", "sync-1", "sync-2", "async-wsgi", "sync-wsgi"]


def sockets_strategy(errors: Any = st.none(), metadata: bool = False) -> st.SearchStrategy:
    def build(x: tuple) -> st.SearchStrategy:
        kind, pair = x
        return st.fixed_dictionaries(
            {
                "kind": st.just(kind),
                "pair": st.just(pair),
                "protocol": st.sampled_from(["connect", "grpc", "grpcweb"] if pair.endswith("2") else ["connect", "grpcweb"]),
                "codec": st.sampled_from(["proto", "json"]),
                "rt": st.sampled_from(["py", "google"]),
                "send": rpc.ENCODINGS,
                "srv": rpc.COMP_SET,
                "accept": rpc.COMP_SET,
                "use_get": st.booleans() if kind == "get" else st.just(False),
                # HTTP servers and clients limit the length of URLs
                "reqs": messages(kind, ("client", "bidi"), msgs.reqs(3000 if kind == "get" else BIG)),
                "ress": messages(kind, ("server", "bidi"), msgs.ress(BIG)),
                "interleave": st.one_of(st.none(), st.just([1])) if kind == "bidi" and pair.endswith("2") else st.none(),
                "error": errors,
                "req_meta": META if metadata else st.just([]),
                "headers": META if metadata else st.just([]),
                "trailers": META if metadata else st.just([]),
            }
        )

    return st.tuples(st.sampled_from(rpc.KINDS), st.sampled_from(PAIRS)).flatmap(build)


def sockets_test(c: dict, rec: Any) -> None:
    kind, proto, rt = c["kind"], c["protocol"], c["rt"]
    caller, server = c["pair"].split("-")
    slot, port = sock.werkzeug() if server == "wsgi" else sock.hypercorn()
    srv = c["srv"]
    if c["send"] and c["send"] not in (["gzip"] if srv is None else srv):
        srv = [*(srv or []), c["send"]]
    svc = rpc.Script(
        rt=rt, ress=c["ress"], error=c["error"], interleave=c["interleave"], res_headers=c["headers"], res_trailers=c["trailers"]
    )
    slot.app = rpc.make_app("wsgi" if server == "wsgi" else "asgi", svc, rt=rt, compressions=rpc.comps(srv))
    call: dict = {"headers": rpc_headers(c["req_meta"]), "timeout_ms": int(TIMEOUT * 1000)}
    if c["use_get"] and proto == "connect":
        call["use_get"] = True
    r, headers, trailers = make_call(
        caller, "2" if server == "2" else "1", port, kind, [rpc.mk_req(rt, q) for q in c["reqs"]], rt, call,
        protocol=rpc.PROTOCOLS[proto], codec=rpc.codec(c["codec"], rt),
        send_compression=rpc.comp(c["send"]) if c["send"] else None, accept_compression=rpc.comps(c["accept"]),
    )
    want = [msgs.nres(x) for x in c["ress"]]
    if c["error"] is None:
        check(r.error is None, "socket-call-failed", lambda: repr(r.error) + " cause " + repr(r.error.__cause__))
        check(r.messages == want, "socket-responses-differ", lambda: f"{r.messages} want {want}")
    else:
        check(r.error is not None, "socket-no-error", lambda: f"{r.messages}")
        o, err = rpc.observed_error(r.error), rpc.expected_error(c["error"])
        check(o == err, "socket-error-differs", f"{o} want {err}")
        if kind in ("server", "bidi"):
            check(r.messages == want, "socket-responses-differ", lambda: f"{r.messages} want {want}")
    check(len(svc.seen) == 1, "handler-invocations", len(svc.seen))
    s = svc.seen[0]
    wreq = [msgs.nreq(q) for q in c["reqs"]]
    check(s.reqs == wreq and s.ended, "socket-requests-differ", lambda: f"{s.reqs} want {wreq}")
    names = {k for k, _ in c["req_meta"]}
    if server == "wsgi":  # '_' cannot be told from '-' there
        names = {n for n in names if "_" not in n}
    check(_joined(meta(s.headers, names)) == _joined(meta(c["req_meta"], names)), "socket-request-metadata-differs", lambda: f"{s.headers} want {c['req_meta']}")
    names = {k for k, _ in c["headers"]}
    check(_joined(meta(headers, names)) == _joined(meta(c["headers"], names)), "socket-headers-differ", lambda: f"{headers} want {c['headers']}")
    names = {k for k, _ in c["trailers"]}
    check(_joined(meta(trailers, names)) == _joined(meta(c["trailers"], names)), "socket-trailers-differ", lambda: f"{trailers} want {c['trailers']}")
    rec.label(c["pair"])
    rec.label(f"{proto}/{kind}")
    if any(c["reqs"]) or any(c["ress"]) or c["error"]:
        rec.nontrivial(f"socket {c['pair']} {proto}")


# -- incremental streams (P24) -------------------------------------------------------------------


def talk_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "pair": st.sampled_from(["async-2", "sync-2", "async-1", "sync-1", "async-wsgi", "sync-wsgi"]),
            "kind": st.sampled_from(["server", "bidi"]),
            "protocol": st.sampled_from(["connect", "grpc", "grpcweb"]),
            "codec": st.sampled_from(["proto", "json"]),
            "send": st.sampled_from([None, "gzip", "zstd"]),
            "msgs": st.lists(msgs.reqs(3000), min_size=1, max_size=6),
            "burst": st.integers(1, 3),
        }
    ).map(_talk_http1)


def _talk_http1(c: dict) -> dict:
    # HTTP/1.1 has no trailers here, and is not full-duplex.
    if not c["pair"].endswith("2"):
        c = {**c, "kind": "server", "protocol": "connect" if c["protocol"] == "grpc" else c["protocol"]}
    return c


def talk_test(c: dict, rec: Any) -> None:
    """bidi: every burst of requests is sent only when all earlier responses have arrived; server: every burst of
    responses is only produced when the earlier ones have arrived."""
    kind, n, burst = c["kind"], len(c["msgs"]), c["burst"]
    caller, version = c["pair"].split("-")
    got: list = []
    stuck: list = []

    async def arrived(i: int) -> None:
        for _ in range(int(TIMEOUT * 500)):
            if len(got) >= i:
                return
            await asyncio.sleep(0.002)
        stuck.append(i)

    class Svc(rpc.Script):
        async def server(self, request: Any, ctx: Any) -> Any:
            for i, r in enumerate(self.ress):
                await arrived(i // burst * burst)
                yield rpc.mk_res("py", r)

        def server_sync(self, request: Any, ctx: Any) -> Any:
            for i, r in enumerate(self.ress):
                pull(i)
                yield rpc.mk_res("py", r)

    def pull(i: int) -> None:
        for _ in range(int(TIMEOUT * 500)):
            if len(got) >= i // burst * burst:
                return
            time.sleep(0.002)
        stuck.append(i)

    texts = [f"{i}" for i in range(n)]
    svc = Svc(ress=[{"text": t} for t in texts], interleave=[1])
    slot, port = sock.werkzeug() if version == "wsgi" else sock.hypercorn()
    slot.app = rpc.make_app("wsgi" if version == "wsgi" else "asgi", svc, compressions=rpc.comps(["gzip", "zstd"]))
    version = "2" if version == "2" else "1"
    reqs = [rpc.mk_req("py", q) for q in (c["msgs"] if kind == "bidi" else c["msgs"][:1])]
    addr = f"http://{sock.HOST}:{port}"
    kw: dict = dict(protocol=rpc.PROTOCOLS[c["protocol"]], codec=rpc.codec(c["codec"]),
                    send_compression=rpc.comp(c["send"]) if c["send"] else None, timeout_ms=int(TIMEOUT * 1000))
    if caller == "async":

        async def gate(i: int) -> None:
            await arrived(i // burst * burst)

        r = runner().run(rpc.acall(rpc.aclient(transport("async", version), addr, **kw), kind, reqs, gate=gate,
                                   on_message=lambda i, m: got.append(m.text)))
    else:
        r = rpc.scall(rpc.sclient(transport("sync", version), addr, **kw), kind, reqs, on_pull=pull,
                      on_message=lambda i, m: got.append(m.text))
    check(not stuck, "socket-not-incremental", f"{got} when waiting for {stuck}")
    check(r.error is None, "socket-call-failed", lambda: f"after {got}: {r.error!r} cause {r.error.__cause__!r}")
    check(got == texts, "socket-responses-differ", got)
    rec.label(f"{c['pair']} {kind} {c['protocol']}")
    if n > burst:
        rec.nontrivial(f"socket {c['pair']} {kind}")


# -- concurrent calls (P19) -----------------------------------------------------------------------


def concurrent_strategy() -> st.SearchStrategy:
    def one(kind: str) -> st.SearchStrategy:
        return st.fixed_dictionaries(
            {
                "kind": st.just(kind),
                "protocol": st.sampled_from(["connect", "grpc", "grpcweb"]),
                "send": rpc.ENCODINGS,
                "reqs": messages(kind, ("client", "bidi"), msgs.reqs(BIG if kind != "get" else 3000)),
                "ress": messages(kind, ("server", "bidi"), msgs.ress(BIG)),
                "error": st.one_of(st.none(), st.none(), rpc.ERRORS),
                "req_meta": META,
                "headers": META,
                "trailers": META,
                "interleave": st.one_of(st.none(), st.just([1])) if kind == "bidi" else st.none(),
            }
        )

    return st.fixed_dictionaries(
        {"flavour": st.sampled_from(["async", "sync"]), "codec": st.sampled_from(["proto", "json"]),
         "calls": st.lists(st.sampled_from(rpc.KINDS).flatmap(one), min_size=2, max_size=8)}
    )


def concurrent_test(c: dict, rec: Any) -> None:
    slot, port = sock.hypercorn()
    scripts = {
        str(i): rpc.Script(ress=k["ress"], error=k["error"], interleave=k["interleave"], res_headers=k["headers"], res_trailers=k["trailers"])
        for i, k in enumerate(c["calls"])
    }
    slot.app = rpc.make_app("asgi", rpc.Router(scripts), compressions=rpc.comps(["gzip", "br", "zstd"]))
    addr = f"http://{sock.HOST}:{port}"
    make, t = (rpc.aclient, transport("async", "2")) if c["flavour"] == "async" else (rpc.sclient, transport("sync", "2"))
    clients: dict = {}
    for k in c["calls"]:
        key = (k["protocol"], k["send"])
        if key not in clients:
            clients[key] = make(t, addr, protocol=rpc.PROTOCOLS[k["protocol"]], codec=rpc.codec(c["codec"]),
                                send_compression=rpc.comp(k["send"]) if k["send"] else None, timeout_ms=int(TIMEOUT * 1000))
    results: dict = {}

    def args(i: int) -> tuple:
        k = c["calls"][i]
        return (clients[k["protocol"], k["send"]], k["kind"], [rpc.mk_req("py", q) for q in k["reqs"]]), {
            "headers": rpc_headers([("x-call", str(i)), *k["req_meta"]])
        }

    if c["flavour"] == "async":

        async def call(i: int) -> None:
            a, kw = args(i)
            with ResponseMetadata() as md:
                r = await rpc.acall(*a, **kw)
            results[i] = r, list(md.headers.allitems()), list(md.trailers.allitems())

        async def all_calls() -> None:
            if c.get("sequence"):
                for i in range(len(c["calls"])):
                    await call(i)
                return
            await asyncio.gather(*(call(i) for i in range(len(c["calls"]))))

        runner().run(all_calls())
    else:

        def call_sync(i: int) -> None:
            a, kw = args(i)
            with ResponseMetadata() as md:
                r = rpc.scall(*a, **kw)
            results[i] = r, list(md.headers.allitems()), list(md.trailers.allitems())

        def some(i: int, step: int) -> None:
            for j in range(i, len(c["calls"]), step):
                call_sync(j)

        step = 1 if c.get("sequence") else min(len(c["calls"]), 64)
        threads = [threading.Thread(target=some, args=(i, step), daemon=True) for i in range(step)]
        for th in threads:
            th.start()
        for th in threads:
            th.join()
    for i, k in enumerate(c["calls"]):
        check(i in results, "socket-call-raised", i)
        r, headers, trailers = results[i]
        s = scripts[str(i)]
        check(len(s.seen) == 1, "handler-invocations", f"call {i}: {len(s.seen)} {r.error!r}")
        wreq = [msgs.nreq(q) for q in k["reqs"]]
        check(s.seen[0].reqs == wreq, "socket-requests-differ", lambda: f"call {i}: {s.seen[0].reqs} want {wreq}")
        want = [msgs.nres(x) for x in k["ress"]]
        if k["error"] is None:
            check(r.error is None, "socket-call-failed", lambda: f"call {i}: {r.error!r} cause {r.error.__cause__!r}")
        else:
            o, err = rpc.observed_error(r.error), rpc.expected_error(k["error"])
            check(o == err, "socket-error-differs", f"call {i}: {o} want {err}")
        if k["error"] is None or k["kind"] in ("server", "bidi"):
            check(r.messages == want, "socket-responses-differ", lambda: f"call {i}: {r.messages} want {want}")
        for got, sent in ((s.seen[0].headers, k["req_meta"]), (headers, k["headers"]), (trailers, k["trailers"])):
            names = {n for n, _ in sent}
            check(_joined(meta(got, names)) == _joined(meta(sent, names)), "socket-metadata-differs", lambda: f"call {i}: {got} want {sent}")
    rec.label(c["flavour"])
    rec.nontrivial(f"socket {c['flavour']} {len(c['calls'])}")


def many_strategy() -> st.SearchStrategy:
    """Some calls over and over."""

    def one(kind: str) -> st.SearchStrategy:
        return st.fixed_dictionaries(
            {
                "kind": st.just(kind),
                "protocol": st.sampled_from(["connect", "grpc", "grpcweb"]),
                "send": rpc.ENCODINGS,
                "error": st.one_of(st.none(), st.none(), rpc.CONNECT_ERRORS),
                "req_meta": META,
                "headers": META,
                "trailers": META,
                "interleave": st.one_of(st.none(), st.just([1])) if kind == "bidi" else st.none(),
            }
        )

    return st.fixed_dictionaries(
        {
            "flavour": st.sampled_from(["async", "sync"]), "codec": st.sampled_from(["proto", "json"]), "sequence": st.booleans(),
            "n": st.sampled_from([50, 100, 101, 128, 150, 256, 300]),
            "of": st.lists(st.sampled_from(rpc.KINDS).flatmap(one), min_size=1, max_size=4),
        }
    )


def many_test(c: dict, rec: Any) -> None:
    calls = []
    for i in range(c["n"]):
        k = c["of"][i % len(c["of"])]
        two = [{"num": i, "text": f"q{i}"}, {"num": -i}]
        ress = [{"text": f"r{i}"}, {"text": f"s{i}"}]
        calls.append(
            {**k, "reqs": two if k["kind"] in ("client", "bidi") else two[:1], "ress": ress if k["kind"] in ("server", "bidi") else ress[:1]}
        )
    concurrent_test({**c, "calls": calls}, rec)
    rec.label("in sequence" if c["sequence"] else "at once")


# -- abandoned streams (P16) ----------------------------------------------------------------------


def abandon_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "pair": st.sampled_from(["async-2", "sync-2", "async-1", "sync-1", "async-wsgi", "sync-wsgi"]),
            "kind": st.sampled_from(["server", "bidi"]),
            "protocol": st.sampled_from(["connect", "grpc", "grpcweb"]),
            "how": st.sampled_from(["close", "cancel", "raise"]),
            "after": st.integers(0, 3),
            "big": st.booleans(),
        }
    ).map(_talk_http1)


def abandon_test(c: dict, rec: Any) -> None:
    """The caller gives up after some responses of an endless stream; the handler must be ended."""
    kind, how, after = c["kind"], c["how"], c["after"]
    caller, version = c["pair"].split("-")
    slot, port = sock.werkzeug() if version == "wsgi" else sock.hypercorn()
    log: list = []

    class Svc:
        async def unary(self, request: Any, ctx: Any) -> Any:
            return rpc.mk_res("py", {"text": "after"})

        get = client = unary

        async def server(self, request: Any, ctx: Any) -> Any:
            log.append("start")
            try:
                while True:
                    yield rpc.mk_res("py", {"data": b"x" * (20_000 if c["big"] else 1)})
                    await asyncio.sleep(0.001)
            finally:
                log.append("end")

        async def bidi(self, requests: Any, ctx: Any) -> Any:
            log.append("start")
            try:
                async for _ in requests:
                    yield rpc.mk_res("py", {"data": b"x" * (20_000 if c["big"] else 1)})
            finally:
                log.append("end")

        def unary_sync(self, request: Any, ctx: Any) -> Any:
            return rpc.mk_res("py", {"text": "after"})

        get_sync = client_sync = bidi_sync = unary_sync

        def server_sync(self, request: Any, ctx: Any) -> Any:
            log.append("start")
            try:
                while True:
                    yield rpc.mk_res("py", {"data": b"x" * (20_000 if c["big"] else 1)})
                    time.sleep(0.001)
            finally:
                log.append("end")

    slot.app = rpc.make_app("wsgi" if version == "wsgi" else "asgi", Svc())
    version = "2" if version == "2" else "1"
    addr = f"http://{sock.HOST}:{port}"
    kw: dict = dict(protocol=rpc.PROTOCOLS[c["protocol"]], timeout_ms=int(TIMEOUT * 1000))
    mi = rpc.method_info(kind)
    pulled: list = []

    class Stop(Exception):
        pass

    if caller == "async":
        client = rpc.aclient(transport("async", version), addr, **kw)

        async def requests() -> Any:
            while True:
                pulled.append(1)
                yield rpc.mk_req("py", {})
                await asyncio.sleep(0.001)

        async def go() -> Any:
            it = client.execute_server_stream(request=rpc.mk_req("py", {}), method=mi) if kind == "server" else client.execute_bidi_stream(request=requests(), method=mi)

            async def use() -> None:
                n = 0
                async for _ in it:
                    n += 1
                    if n > after:
                        if how == "raise":
                            raise Stop
                        if how == "close":
                            return
                        reached.set()
            reached = asyncio.Event()
            task = asyncio.create_task(use())
            if how == "cancel":
                await reached.wait()
                task.cancel()
            await asyncio.gather(task, return_exceptions=True)
            # iteration that is left closes the stream when the caller closes it
            await it.aclose()
            for _ in range(int(TIMEOUT * 200)):
                if "end" in log:
                    break
                await asyncio.sleep(0.005)
            return await client.execute_unary(request=rpc.mk_req("py", {}), method=rpc.method_info("unary"))

        last = runner().run(go())
    else:
        client = rpc.sclient(transport("sync", version), addr, **kw)

        def requests_sync() -> Any:
            while True:
                pulled.append(1)
                yield rpc.mk_req("py", {})
                time.sleep(0.001)

        it = client.execute_server_stream(request=rpc.mk_req("py", {}), method=mi) if kind == "server" else client.execute_bidi_stream(request=requests_sync(), method=mi)
        try:
            for n, _ in enumerate(it):
                if n >= after:
                    if how == "raise":
                        raise Stop
                    break
        except Stop:
            pass
        it.close()
        for _ in range(int(TIMEOUT * 200)):
            if "end" in log:
                break
            time.sleep(0.005)
        last = client.execute_unary(request=rpc.mk_req("py", {}), method=rpc.method_info("unary"))
    check(log == ["start", "end"], "socket-handler-left-running", log)
    check(last.text == "after", "socket-next-call", last)
    n = len(pulled)
    time.sleep(0.02)
    check(len(pulled) <= n + 1, "socket-requests-pulled-after-end", f"{n} then {len(pulled)}")
    rec.label(f"{c['pair']} {kind} {c['protocol']}")
    rec.nontrivial(f"socket {c['pair']} {kind} {how}")
