"""Services with scripted handlers and clients calling them, for both I/O flavours, built only
from the library's public API."""

from __future__ import annotations

import asyncio
import contextlib
from dataclasses import dataclass, field
from typing import Any

import pyqwest
from hypothesis import strategies as st

from connectrpc.client import ConnectClient, ConnectClientSync
from connectrpc.code import Code
from connectrpc.codec import proto_binary_codec, proto_json_codec
from connectrpc.compat import google_protobuf_binary_codec, google_protobuf_codecs, google_protobuf_json_codec
from connectrpc.compression.brotli import BrotliCompression
from connectrpc.compression.gzip import GzipCompression
from connectrpc.compression.zstd import ZstdCompression
from connectrpc.errors import ConnectError, ErrorDetail
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.protocol import ProtocolType
from connectrpc.request import RequestContext
from connectrpc.server import ConnectASGIApplication, ConnectWSGIApplication, Endpoint, EndpointSync
from protobuf.wkt import Any as PbAny
from protobuf.wkt import StringValue

from . import msgs, wire
from .core import check
from .gen import vt_pb as P
from .gen import vt_pb2 as G

PROTOCOLS = {"connect": ProtocolType.CONNECT, "grpc": ProtocolType.GRPC, "grpcweb": ProtocolType.GRPC_WEB}
KINDS = ["unary", "get", "client", "server", "bidi"]
METHOD_NAME = {"unary": "Unary", "get": "Get", "client": "Client", "server": "Server", "bidi": "Bidi"}
SERVICE = "vt.v1.Vt"


def path(kind: str) -> str:
    return f"/{SERVICE}/{METHOD_NAME[kind]}"


def comp(name: str) -> Any:
    return {"gzip": GzipCompression, "br": BrotliCompression, "zstd": ZstdCompression}[name]()


def comps(names: list[str] | None) -> list[Any] | None:
    return None if names is None else [comp(n) for n in names]


def method_info(kind: str, rt: str = "py", idem: Any = None) -> MethodInfo:
    return MethodInfo(
        name=METHOD_NAME[kind],
        service_name=SERVICE,
        input=P.Req if rt == "py" else G.Req,
        output=P.Res if rt == "py" else G.Res,
        idempotency_level=idem
        or (IdempotencyLevel.NO_SIDE_EFFECTS if kind == "get" else IdempotencyLevel.UNKNOWN),
    )


def mk_req(rt: str, d: dict) -> Any:
    return msgs.py_req(d) if rt == "py" else msgs.g_req(d)


def mk_res(rt: str, d: dict) -> Any:
    return msgs.py_res(d) if rt == "py" else msgs.g_res(d)


# -- errors as plain data -----------------------------------------------------------------


def mk_detail(d: tuple) -> Any:
    t = d[0]
    if t == "item":
        return msgs._item(d[1])
    if t == "str":
        return StringValue(value=d[1])
    if t == "any":
        return PbAny(type_url="type.googleapis.com/" + d[1], value=msgs.expand_blob(d[2]))
    if t == "wrapped":  # already an ErrorDetail
        return ErrorDetail(StringValue(value=d[1]))
    raise AssertionError(d)


def detail_wire(d: tuple) -> tuple[str, bytes]:
    t = d[0]
    if t == "item":
        m = G.Item()
        msgs._gitem(m, d[1])
        return ("vt.v1.Item", m.SerializeToString(deterministic=True))
    if t in ("str", "wrapped"):
        v = d[1].encode()
        return ("google.protobuf.StringValue", wire.pb_len(1, v) if v else b"")
    return (d[1], msgs.expand_blob(d[2]))


def mk_error(e: dict) -> Exception:
    if "exc" in e:
        cls = (EXC_TYPES | STOPS)[e["exc"]]
        return cls(*([e["message"]] if e["message"] is not None else []))
    cls = SubError if len(e["message"]) % 3 == 1 else ConnectError
    err = cls(Code(e["code"]), e["message"], details=[mk_detail(d) for d in e["details"]])
    if len(e["details"]) == 1:
        err.__cause__ = ConnectError(Code.DATA_LOSS, "cause")
    return err


class CustomError(Exception):
    pass


class SubError(ConnectError):
    """An RPC error of the application's own."""


class FamilyError(TimeoutError, ConnectionResetError):
    pass


EXC_TYPES = {
    c.__name__: c
    for c in (
        ValueError, RuntimeError, KeyError, OSError, AssertionError, TimeoutError, EOFError, IndexError, AttributeError,
        NotImplementedError, RecursionError, MemoryError, BufferError, TypeError, ConnectionResetError, BrokenPipeError,
        ConnectionAbortedError, InterruptedError, ImportError, Warning, pyqwest.ReadError, pyqwest.WriteError, FamilyError,
    )
} | {"Custom": CustomError}
STOPS = {"StopIteration": StopIteration, "StopAsyncIteration": StopAsyncIteration}


def expected_error(e: dict) -> wire.Err:
    """What the peer must observe for a handler error."""
    if "exc" in e:
        return wire.Err("unknown", str(mk_error(e)), [])
    return wire.Err(e["code"], e["message"], [detail_wire(d) for d in e["details"]])


def observed_error(e: Any) -> wire.Err:
    check(isinstance(e, ConnectError), "client:non-connect-error", f"{type(e).__name__}: {e}")
    check(isinstance(e.code, Code), "client:error-code-type", repr(e.code))
    check(isinstance(e.message, str), "client:error-message-type", repr(e.message))
    return wire.Err(
        e.code.value, e.message, [(d.type_name, bytes(d.message_bytes)) for d in e.details]
    )


ERR_TEXT = st.one_of(
    st.sampled_from(
        ["", "boom", "%", "100%25", "é", "日本\n語", "a\r\nb", "\x00\x7f", " lead ", "tab\t", "😀", "a:b", '"q"', "\u2028", "a+b c", "~!@#$^&*()"]
    ),
    msgs.TEXT,
    st.tuples(st.sampled_from(["abcdefgh ", "é%", "x"]), st.sampled_from([9, 30, 120])).map(lambda x: x[0] * x[1]),
)
TYPE_NAMES = st.sampled_from(["acme.v1.Foo", "Foo", "a.b.C.D", "vt.v1.Unknown", "google.rpc.RetryInfo"])
DETAILS = st.lists(
    st.one_of(
        st.tuples(st.just("item"), msgs.ITEM),
        st.tuples(st.just("str"), msgs.TEXTS),
        st.tuples(st.just("any"), TYPE_NAMES, st.binary(max_size=20)),
        st.tuples(st.just("any"), TYPE_NAMES, st.builds(lambda n, p: {"n": n, "pat": p}, st.integers(21, 600), st.integers(0, 255))),
        st.tuples(st.just("wrapped"), msgs.TEXTS),
    ),
    max_size=3,
)
CONNECT_ERRORS = st.builds(
    lambda c, m, d: {"code": c, "message": m, "details": d},
    st.sampled_from(wire.CODE_NAMES),
    ERR_TEXT,
    DETAILS,
)
EXC_ERRORS = st.builds(
    lambda n, m: {"exc": n, "message": m},
    st.sampled_from(sorted(EXC_TYPES)),
    st.one_of(st.none(), ERR_TEXT),
)
STOP_ERRORS = st.builds(lambda n, m: {"exc": n, "message": m}, st.sampled_from(sorted(STOPS)), ERR_TEXT)
ERRORS = st.one_of(CONNECT_ERRORS, CONNECT_ERRORS, EXC_ERRORS)


# -- scripted service --------------------------------------------------------------------


@dataclass
class Seen:
    """What one handler invocation observed."""

    kind: str
    reqs: list[tuple] = field(default_factory=list)
    ended: bool = False  # request stream reported its end
    req_error: Exception | None = None
    headers: list[tuple[str, str]] = field(default_factory=list)
    timeout_ms: float | None = None
    http_method: str = ""
    server_address: str | None = None
    client_address: str | None = None
    method: Any = None
    closed: int = 0
    sent: int = 0


@dataclass
class Script:
    """How handlers answer. `interleave` (bidi): number of requests to read before each response;
    None reads everything first. `read` limits how many requests are consumed (client/bidi)."""

    rt: str = "py"
    ress: list[dict] = field(default_factory=list)
    res_headers: list[tuple[str, str]] = field(default_factory=list)
    res_trailers: list[tuple[str, str]] = field(default_factory=list)
    late_trailers: list[tuple[str, str]] = field(default_factory=list)
    error: dict | None = None
    interleave: list[int] | None = None
    read: int | None = None
    seen: list[Seen] = field(default_factory=list)

    # shared bits
    def _begin(self, kind: str, ctx: RequestContext) -> Seen:
        s = Seen(kind)
        s.headers = list(ctx.request_headers.allitems())
        s.timeout_ms = ctx.timeout_ms
        s.http_method = ctx.http_method
        s.server_address = ctx.server_address
        s.client_address = ctx.client_address
        s.method = ctx.method
        self.seen.append(s)
        for k, v in self.res_headers:
            ctx.response_headers.add(k, v)
        for k, v in self.res_trailers:
            ctx.response_trailers.add(k, v)
        return s

    def _late(self, ctx: RequestContext) -> None:
        for k, v in self.late_trailers:
            ctx.response_trailers.add(k, v)

    def _fail(self) -> None:
        if self.error is not None:
            raise mk_error(self.error)

    # async handlers
    async def unary(self, request: Any, ctx: RequestContext, kind: str = "unary") -> Any:
        s = self._begin(kind, ctx)
        s.reqs.append(msgs.norm(request))
        s.ended = True
        await asyncio.sleep(0)
        self._late(ctx)
        self._fail()
        return mk_res(self.rt, self.ress[0])

    async def get(self, request: Any, ctx: RequestContext) -> Any:
        return await self.unary(request, ctx, "get")

    async def _read_all(self, s: Seen, request: Any) -> None:
        try:
            n = 0
            if self.read == 0:
                return
            async for r in request:
                s.reqs.append(msgs.norm(r))
                n += 1
                if self.read is not None and n >= self.read:
                    return
            s.ended = True
        except Exception as e:
            s.req_error = e
            raise

    async def client(self, request: Any, ctx: RequestContext) -> Any:
        s = self._begin("client", ctx)
        await self._read_all(s, request)
        self._late(ctx)
        self._fail()
        return mk_res(self.rt, self.ress[0])

    async def server(self, request: Any, ctx: RequestContext) -> Any:
        s = self._begin("server", ctx)
        try:
            s.reqs.append(msgs.norm(request))
            s.ended = True
            for r in self.ress:
                s.sent += 1
                yield mk_res(self.rt, r)
                await asyncio.sleep(0)
            self._late(ctx)
            self._fail()
        finally:
            s.closed += 1

    async def bidi(self, request: Any, ctx: RequestContext) -> Any:
        s = self._begin("bidi", ctx)
        try:
            if self.interleave is None:
                await self._read_all(s, request)
            it = request.__aiter__()

            async def read1() -> None:
                if s.ended:
                    return
                try:
                    s.reqs.append(msgs.norm(await it.__anext__()))
                except StopAsyncIteration:
                    s.ended = True
                except Exception as e:
                    s.req_error = e
                    raise

            for i, r in enumerate(self.ress):
                if self.interleave is not None:
                    for _ in range(self.interleave[i % len(self.interleave)] if self.interleave else 0):
                        await read1()
                s.sent += 1
                yield mk_res(self.rt, r)
            if self.interleave is not None:
                while not s.ended:
                    await read1()
            self._late(ctx)
            self._fail()
        finally:
            s.closed += 1

    # sync handlers
    def unary_sync(self, request: Any, ctx: RequestContext, kind: str = "unary") -> Any:
        s = self._begin(kind, ctx)
        s.reqs.append(msgs.norm(request))
        s.ended = True
        self._late(ctx)
        self._fail()
        return mk_res(self.rt, self.ress[0])

    def get_sync(self, request: Any, ctx: RequestContext) -> Any:
        return self.unary_sync(request, ctx, "get")

    def _read_all_sync(self, s: Seen, request: Any) -> None:
        try:
            n = 0
            if self.read == 0:
                return
            for r in request:
                s.reqs.append(msgs.norm(r))
                n += 1
                if self.read is not None and n >= self.read:
                    return
            s.ended = True
        except Exception as e:
            s.req_error = e
            raise

    def client_sync(self, request: Any, ctx: RequestContext) -> Any:
        s = self._begin("client", ctx)
        self._read_all_sync(s, request)
        self._late(ctx)
        self._fail()
        return mk_res(self.rt, self.ress[0])

    def server_sync(self, request: Any, ctx: RequestContext) -> Any:
        s = self._begin("server", ctx)
        try:
            s.reqs.append(msgs.norm(request))
            s.ended = True
            for r in self.ress:
                s.sent += 1
                yield mk_res(self.rt, r)
            self._late(ctx)
            self._fail()
        finally:
            s.closed += 1

    def bidi_sync(self, request: Any, ctx: RequestContext) -> Any:
        s = self._begin("bidi", ctx)
        try:
            if self.interleave is None:
                self._read_all_sync(s, request)
            it = iter(request)

            def read1() -> None:
                if s.ended:
                    return
                try:
                    s.reqs.append(msgs.norm(next(it)))
                except StopIteration:
                    s.ended = True
                except Exception as e:
                    s.req_error = e
                    raise

            for i, r in enumerate(self.ress):
                if self.interleave is not None:
                    for _ in range(self.interleave[i % len(self.interleave)] if self.interleave else 0):
                        read1()
                s.sent += 1
                yield mk_res(self.rt, r)
            if self.interleave is not None:
                while not s.ended:
                    read1()
            self._late(ctx)
            self._fail()
        finally:
            s.closed += 1


class Router:
    """Dispatches each call to the script named by its x-call header; `delays` (virtual seconds, async
    only) are slept before the handler starts and before each of its responses."""

    def __init__(self, scripts: dict[str, Script], delays: dict[str, list[float]] | None = None) -> None:
        self.scripts, self.delays = scripts, delays or {}

    def _pick(self, ctx: RequestContext) -> Script:
        return self.scripts[ctx.request_headers["x-call"]]

    async def _pause(self, ctx: RequestContext, i: int) -> None:
        d = self.delays.get(ctx.request_headers["x-call"])
        if d:
            await asyncio.sleep(d[i % len(d)])

    async def unary(self, request: Any, ctx: RequestContext) -> Any:
        await self._pause(ctx, 0)
        return await self._pick(ctx).unary(request, ctx)

    async def get(self, request: Any, ctx: RequestContext) -> Any:
        await self._pause(ctx, 0)
        return await self._pick(ctx).get(request, ctx)

    async def client(self, request: Any, ctx: RequestContext) -> Any:
        await self._pause(ctx, 0)
        return await self._pick(ctx).client(request, ctx)

    async def _paced(self, it: Any, ctx: RequestContext) -> Any:
        async with contextlib.aclosing(it):
            i = 0
            await self._pause(ctx, i)
            async for m in it:
                yield m
                i += 1
                await self._pause(ctx, i)

    def server(self, request: Any, ctx: RequestContext) -> Any:
        return self._paced(self._pick(ctx).server(request, ctx), ctx)

    def bidi(self, request: Any, ctx: RequestContext) -> Any:
        return self._paced(self._pick(ctx).bidi(request, ctx), ctx)

    def unary_sync(self, request: Any, ctx: RequestContext) -> Any:
        return self._pick(ctx).unary_sync(request, ctx)

    def get_sync(self, request: Any, ctx: RequestContext) -> Any:
        return self._pick(ctx).get_sync(request, ctx)

    def client_sync(self, request: Any, ctx: RequestContext) -> Any:
        return self._pick(ctx).client_sync(request, ctx)

    def server_sync(self, request: Any, ctx: RequestContext) -> Any:
        return self._pick(ctx).server_sync(request, ctx)

    def bidi_sync(self, request: Any, ctx: RequestContext) -> Any:
        return self._pick(ctx).bidi_sync(request, ctx)


ASYNC_FACTORY = {"unary": "unary", "get": "unary", "client": "client_stream", "server": "server_stream", "bidi": "bidi_stream"}


class AsgiApp(ConnectASGIApplication):
    @property
    def path(self) -> str:
        return f"/{SERVICE}"


class WsgiApp(ConnectWSGIApplication):
    @property
    def path(self) -> str:
        return f"/{SERVICE}"


def async_endpoints(svc: Any, rt: str = "py", idem: dict | None = None) -> dict:
    return {
        path(k): getattr(Endpoint, ASYNC_FACTORY[k])(
            method=method_info(k, rt, (idem or {}).get(k)), function=getattr(svc, k)
        )
        for k in KINDS
    }


def sync_endpoints(svc: Any, rt: str = "py", idem: dict | None = None) -> dict:
    return {
        path(k): getattr(EndpointSync, ASYNC_FACTORY[k])(
            method=method_info(k, rt, (idem or {}).get(k)), function=getattr(svc, k + "_sync")
        )
        for k in KINDS
    }


def make_app(flavour: str, svc: Any, *, rt: str = "py", idem: dict | None = None, **kw: Any) -> Any:
    if rt == "google":
        kw.setdefault("codecs", google_protobuf_codecs())
    if flavour == "asgi":
        return AsgiApp(service=svc, endpoints=lambda s: async_endpoints(s, rt, idem), **kw)
    return WsgiApp(endpoints=sync_endpoints(svc, rt, idem), **kw)


def codec(name: str, rt: str = "py") -> Any:
    if rt == "google":
        return google_protobuf_binary_codec() if name == "proto" else google_protobuf_json_codec()
    return proto_binary_codec() if name == "proto" else proto_json_codec()


# -- client calls -----------------------------------------------------------------------------


@dataclass
class Result:
    messages: list[tuple] = field(default_factory=list)
    raw: list[Any] = field(default_factory=list)
    error: Exception | None = None


async def acall(
    client: Any,
    kind: str,
    reqs: list[Any],
    *,
    rt: str = "py",
    use_get: bool = False,
    gate: Any = None,
    on_message: Any = None,
    mi: Any = None,
    **kw: Any,
) -> Result:
    """gate(i) is awaited before request i is produced; on_message(i, m) after each response."""
    r = Result()
    mi = mi or method_info(kind, rt)

    async def stream() -> Any:
        for i, q in enumerate(reqs):
            if gate is not None:
                await gate(i)
            yield q

    try:
        if kind in ("unary", "get"):
            if use_get:
                kw["use_get"] = True
            r.raw.append(await client.execute_unary(request=reqs[0], method=mi, **kw))
        elif kind == "client":
            r.raw.append(await client.execute_client_stream(request=stream(), method=mi, **kw))
        else:
            if kind == "server":
                it = client.execute_server_stream(request=reqs[0], method=mi, **kw)
            else:
                it = client.execute_bidi_stream(request=stream(), method=mi, **kw)
            async for m in it:
                r.raw.append(m)
                if on_message is not None:
                    x = on_message(len(r.raw) - 1, m)
                    if asyncio.iscoroutine(x):
                        await x
    except Exception as e:  # noqa: BLE001
        r.error = e
    r.messages = [msgs.norm(m) for m in r.raw]
    return r


def scall(
    client: Any,
    kind: str,
    reqs: list[Any],
    *,
    rt: str = "py",
    use_get: bool = False,
    on_message: Any = None,
    on_pull: Any = None,
    mi: Any = None,
    **kw: Any,
) -> Result:
    r = Result()
    mi = mi or method_info(kind, rt)

    def stream() -> Any:
        for i, q in enumerate(reqs):
            if on_pull is not None:
                on_pull(i)
            yield q

    try:
        if kind in ("unary", "get"):
            if use_get:
                kw["use_get"] = True
            r.raw.append(client.execute_unary(request=reqs[0], method=mi, **kw))
        elif kind == "client":
            r.raw.append(client.execute_client_stream(request=stream(), method=mi, **kw))
        else:
            if kind == "server":
                it = client.execute_server_stream(request=reqs[0], method=mi, **kw)
            else:
                it = client.execute_bidi_stream(request=stream(), method=mi, **kw)
            for m in it:
                r.raw.append(m)
                if on_message is not None:
                    on_message(len(r.raw) - 1, m)
    except Exception as e:  # noqa: BLE001
        r.error = e
    r.messages = [msgs.norm(m) for m in r.raw]
    return r


def aclient(transport: Any, address: str = "http://localhost", **kw: Any) -> Any:
    return ConnectClient(address, http_client=pyqwest.Client(transport), **kw)


def sclient(transport: Any, address: str = "http://localhost", **kw: Any) -> Any:
    return ConnectClientSync(address, http_client=pyqwest.SyncClient(transport), **kw)


# -- strategies shared by several properties ---------------------------------------------------

# Header names/values valid on every server: lower-case tokens and visible ASCII without
# surrounding blanks (HTTP strips those), excluding names that HTTP or the protocols own.
HEADER_NAME = st.one_of(
    st.sampled_from(["x-a", "x-b", "x-request-id", "authorization", "foo", "x-trailerish", "custom-bin", "a1_b", "x-c.d", "etag"]),
    st.from_regex(r"x-[a-z][a-z0-9\-]{0,8}", fullmatch=True),
)
HEADER_VALUE = st.one_of(
    st.sampled_from(["", "1", "a b", "a,b", "k=v; q=1", "%20", '"q"', "~", "Bearer x.y-z_", "0"]),
    st.text(alphabet=st.characters(min_codepoint=0x21, max_codepoint=0x7E), min_size=1, max_size=12),
)
HEADER_LIST = st.lists(st.tuples(HEADER_NAME, HEADER_VALUE), max_size=4)
# Request headers that proxies, browsers and frameworks use to claim something about a request. They mean
# nothing to the protocols, so a server must not act on them.
CLAIMS = [
    ("x-forwarded-for", "192.0.2.7"), ("x-forwarded-for", "192.0.2.7, 198.51.100.1"), ("x-real-ip", "192.0.2.8"),
    ("forwarded", "for=192.0.2.9;host=evil.example:1;proto=https"), ("x-forwarded-host", "evil.example:99"),
    ("x-forwarded-port", "1234"), ("x-forwarded-proto", "https"), ("x-forwarded-prefix", "/api"), ("x-client-ip", "192.0.2.1"),
    ("x-http-method-override", "GET"), ("x-http-method-override", "POST"), ("x-http-method", "DELETE"), ("x-original-url", "/S/Get"),
    ("x-rewrite-url", "/vt.v1.Vt/Get"), ("x-script-name", "/api"), ("x-remote-addr", "192.0.2.2"), ("remote-addr", "192.0.2.3"),
    ("x-content-type", "application/grpc"), ("accept", "application/json"), ("accept", "application/grpc"), ("x-grpc-web", "1"),
    ("te", "trailers"), ("x-user-agent", "grpc-web-javascript/0.1"), ("origin", "http://evil.example"), ("upgrade-insecure-requests", "1"),
    ("x-server-name", "evil.example"), ("x-timeout", "1"), ("expect", "100-continue"), ("prefer", "respond-async"),
]
NOISE = st.lists(st.sampled_from(CLAIMS), max_size=3, unique_by=lambda h: h[0])
PLAN = st.one_of(st.just([]), st.just([1]), st.lists(st.integers(0, 12), min_size=1, max_size=5), st.lists(st.integers(1, 5000), min_size=1, max_size=3))
ENCODINGS = st.sampled_from([None, "gzip", "br", "zstd"])
COMP_SET = st.one_of(st.none(), st.lists(st.sampled_from(["gzip", "br", "zstd"]), unique=True, max_size=3))
