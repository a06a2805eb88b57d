"""P17: interceptors wrap every call exactly once, in order.

The expectation is obtained by composing the very same interceptor programs by hand around the
handler's plain function, without the library, and running that composition."""

from __future__ import annotations

import contextlib
from dataclasses import dataclass, field
from typing import Any

from hypothesis import strategies as st

from connectrpc.client import ResponseMetadata
from connectrpc.code import Code
from connectrpc.errors import ConnectError
from connectrpc.request import Headers, RequestContext

from .. import http, rpc, vclock
from ..core import Part, check, mostly
from ..gen import vt_pb as P

PID = "P17"
LEVEL = "exploration"
RULE = (
    "non-trivial: at least two interceptors apply to a called method, or one that applies does more than forwarding"
)
ASSUMPTIONS = [
    "an interceptor is either a metadata interceptor or one that intercepts calls, not both",
    "interceptors consume the streams they forward to the end (abandoned streams belong to P16)",
    "an end callback does not raise",
]
QUICK_BUDGET = 100.0
KINDS = ["unary", "client", "server", "bidi"]
ACTS = ["req", "res", "head", "trail", "ctx", "map", "swallow", "retry", "before", "after", "short"]

ICEPT = st.one_of(
    st.fixed_dictionaries(
        {
            "kinds": st.one_of(st.just(KINDS), st.just(KINDS), st.lists(st.sampled_from(KINDS), min_size=1, unique=True)),
            # quiet actions are frequent, those that cut a call short are rare
            "do": st.lists(
                st.sampled_from(ACTS[:4] * 4 + ACTS[4:8] * 2 + ACTS[8:]), max_size=3, unique=True
            ),
            "code": st.sampled_from(["aborted", "not_found", "plain"]),
        }
    ),
    st.fixed_dictionaries({"meta": st.booleans(), "fail": st.sampled_from([False] * 7 + [True]), "code": st.sampled_from(["aborted", "plain"])}),
)
# long chains only consist of what passes a call on once
LINK = st.one_of(
    st.fixed_dictionaries({"kinds": st.just(KINDS), "do": st.lists(st.sampled_from(ACTS[:5]), max_size=2, unique=True), "code": st.just("aborted")}),
    st.fixed_dictionaries({"meta": st.booleans(), "fail": st.just(False), "code": st.just("aborted")}),
)
CHAIN = mostly(11, st.lists(ICEPT, max_size=4), st.lists(LINK, min_size=5, max_size=40))
CALL = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(KINDS),
        "n": mostly(9, st.integers(0, 3), st.sampled_from([9, 20, 70])),
        "fail": st.one_of(st.just(0), st.just(0), st.integers(1, 3)),  # failing attempts
        "at": st.integers(0, 3),
        "read_all": st.booleans(),
        "plain": st.booleans(),  # fails with an exception that is not an RPC error
    }
)


def strategy(flavour: str) -> Any:
    def make() -> st.SearchStrategy:
        return st.fixed_dictionaries(
            {
                "flavour": st.just(flavour),
                "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
                "client": CHAIN,
                "server": CHAIN,
                "iterable": st.sampled_from(["list", "tuple", "iter", "dict", "once"]),
                "calls": st.lists(CALL, min_size=1, max_size=3),
                "lifespan": st.booleans(),
            }
        )

    return make


@dataclass
class Log:
    order: dict[str, list] = field(default_factory=lambda: {"c": [], "s": []})
    reqs: dict[tuple, list] = field(default_factory=dict)
    handler: list = field(default_factory=list)

    def ev(self, side: str, *what: Any) -> None:
        self.order[side].append(what)

    def req(self, side: str, i: int, text: str) -> None:
        self.reqs.setdefault((side, i), []).append(text)


class World:
    """What interceptors and handler of one run share."""

    def __init__(self) -> None:
        self.log = Log()
        self.call: dict = {}
        self.attempt = 0


def err(e: BaseException | None) -> Any:
    if e is None:
        return None
    if isinstance(e, ConnectError):
        return (e.code.value, e.message)
    return (type(e).__name__, str(e))


def req(text: str) -> Any:
    return P.Req(text=text)


def res(text: str) -> Any:
    return P.Res(text=text)


def changed_ctx(ctx: Any, tag: str) -> Any:
    h = Headers(list(ctx.request_headers.allitems()))
    h.add("x-r", tag)
    return RequestContext(method=ctx.method, http_method=ctx.http_method, request_headers=h, server_address=ctx.server_address)


class Base:
    def __init__(self, w: World, side: str, i: int, spec: dict) -> None:
        self.w, self.side, self.i, self.spec = w, side, i, spec
        self.tag = f"{side}{i}"
        self.do = spec.get("do", ())

    def enter(self, kind: str, ctx: Any) -> Any:
        self.w.log.ev(self.side, "enter", self.i, kind, ctx.method.name)
        if "head" in self.do:
            (ctx.request_headers if self.side == "c" else ctx.response_headers).add("x-i", self.tag)
        return changed_ctx(ctx, self.tag) if "ctx" in self.do else ctx

    def leave(self, ctx: Any, e: BaseException | None, value: Any = None) -> None:
        self.w.log.ev(self.side, "leave", self.i, err(e), value)
        if "trail" in self.do and self.side == "s":
            ctx.response_trailers.add("x-t", self.tag)

    def boom(self, when: str) -> Exception:
        if self.spec["code"] == "plain":
            return ValueError(f"{self.tag} {when}")
        return ConnectError(Code(self.spec["code"]), f"{self.tag} {when}")

    def rq(self, m: Any) -> Any:
        self.w.log.req(self.side, self.i, m.text)
        return req(m.text + "," + self.tag) if "req" in self.do else m

    def rs(self, m: Any) -> Any:
        self.w.log.ev(self.side, "res", self.i, m.text)
        return res(m.text + "," + self.tag) if "res" in self.do else m

    @property
    def tries(self) -> int:
        return 2 if "retry" in self.do else 1


# -- asynchronous programs ----------------------------------------------------------------------------


async def _a_single(self: Base, kind: str, call_next: Any, request: Any, ctx: Any) -> Any:
    inner = self.enter(kind, ctx)
    try:
        if "before" in self.do:
            raise self.boom("before")
        if "short" in self.do:
            out = res(self.tag)
        else:
            if kind == "unary":
                q: Any = self.rq(request)
            else:

                async def mapped() -> Any:
                    async for m in request:
                        yield self.rq(m)

                q = mapped()
            for left in range(self.tries if kind == "unary" else 1, 0, -1):
                try:
                    out = self.rs(await call_next(q, inner))
                    break
                except Exception as e:
                    self.w.log.ev(self.side, "caught", self.i, err(e))
                    if left == 1:
                        raise
        if "after" in self.do:
            raise self.boom("after")
    except Exception as e:
        if "swallow" in self.do:
            out = res(f"{self.tag} swallowed")
        elif "map" in self.do:
            e2 = ConnectError(Code.DATA_LOSS, f"{self.tag}:{e}")
            self.leave(ctx, e2)
            raise e2 from e
        else:
            self.leave(ctx, e)
            raise
    self.leave(ctx, None, out.text)
    return out


async def _a_stream(self: Base, kind: str, call_next: Any, request: Any, ctx: Any) -> Any:
    inner = self.enter(kind, ctx)
    try:
        if "before" in self.do:
            raise self.boom("before")
        if "short" in self.do:
            yield res(self.tag)
        else:
            if kind == "server":
                q: Any = self.rq(request)
            else:

                async def mapped() -> Any:
                    async for m in request:
                        yield self.rq(m)

                q = mapped()
            async for m in call_next(q, inner):
                yield self.rs(m)
        if "after" in self.do:
            raise self.boom("after")
    except Exception as e:
        if "swallow" in self.do:
            yield res(f"{self.tag} swallowed")
        elif "map" in self.do:
            e2 = ConnectError(Code.DATA_LOSS, f"{self.tag}:{e}")
            self.leave(ctx, e2)
            raise e2 from e
        else:
            self.leave(ctx, e)
            raise
    self.leave(ctx, None)


A_METHODS = {
    "unary": ("intercept_unary", lambda self, n, r, c: _a_single(self, "unary", n, r, c)),
    "client": ("intercept_client_stream", lambda self, n, r, c: _a_single(self, "client", n, r, c)),
    "server": ("intercept_server_stream", lambda self, n, r, c: _a_stream(self, "server", n, r, c)),
    "bidi": ("intercept_bidi_stream", lambda self, n, r, c: _a_stream(self, "bidi", n, r, c)),
}


class MetaBase(Base):
    def begin(self, ctx: Any) -> Any:
        self.w.log.ev(self.side, "start", self.i, ctx.method.name)
        if self.spec["fail"]:
            raise self.boom("start")
        if self.spec["meta"]:
            (ctx.request_headers if self.side == "c" else ctx.response_headers).add("x-i", self.tag)
        return ("token", self.i, len(self.w.log.order[self.side]))

    def finish(self, token: Any, ctx: Any, e: Any) -> None:
        self.w.log.ev(self.side, "end", self.i, ctx.method.name, token, err(e))
        if self.spec["meta"] and self.side == "s":
            ctx.response_trailers.add("x-t", self.tag)


class MetaA(MetaBase):
    async def on_start(self, ctx: Any) -> Any:
        return self.begin(ctx)

    async def on_end(self, token: Any, ctx: Any, error: Any) -> None:
        self.finish(token, ctx, error)


class MetaS(MetaBase):
    def on_start_sync(self, ctx: Any) -> Any:
        return self.begin(ctx)

    def on_end_sync(self, token: Any, ctx: Any, error: Any) -> None:
        self.finish(token, ctx, error)


# -- synchronous programs ----------------------------------------------------------------------------


def _s_single(self: Base, kind: str, call_next: Any, request: Any, ctx: Any) -> Any:
    inner = self.enter(kind, ctx)
    try:
        if "before" in self.do:
            raise self.boom("before")
        if "short" in self.do:
            out = res(self.tag)
        else:
            q = self.rq(request) if kind == "unary" else (self.rq(m) for m in request)
            for left in range(self.tries if kind == "unary" else 1, 0, -1):
                try:
                    out = self.rs(call_next(q, inner))
                    break
                except Exception as e:
                    self.w.log.ev(self.side, "caught", self.i, err(e))
                    if left == 1:
                        raise
        if "after" in self.do:
            raise self.boom("after")
    except Exception as e:
        if "swallow" in self.do:
            out = res(f"{self.tag} swallowed")
        elif "map" in self.do:
            e2 = ConnectError(Code.DATA_LOSS, f"{self.tag}:{e}")
            self.leave(ctx, e2)
            raise e2 from e
        else:
            self.leave(ctx, e)
            raise
    self.leave(ctx, None, out.text)
    return out


def _s_stream(self: Base, kind: str, call_next: Any, request: Any, ctx: Any) -> Any:
    inner = self.enter(kind, ctx)
    try:
        if "before" in self.do:
            raise self.boom("before")
        if "short" in self.do:
            yield res(self.tag)
        else:
            q = self.rq(request) if kind == "server" else (self.rq(m) for m in request)
            for m in call_next(q, inner):
                yield self.rs(m)
        if "after" in self.do:
            raise self.boom("after")
    except Exception as e:
        if "swallow" in self.do:
            yield res(f"{self.tag} swallowed")
        elif "map" in self.do:
            e2 = ConnectError(Code.DATA_LOSS, f"{self.tag}:{e}")
            self.leave(ctx, e2)
            raise e2 from e
        else:
            self.leave(ctx, e)
            raise
    self.leave(ctx, None)


S_METHODS = {
    "unary": ("intercept_unary_sync", lambda self, n, r, c: _s_single(self, "unary", n, r, c)),
    "client": ("intercept_client_stream_sync", lambda self, n, r, c: _s_single(self, "client", n, r, c)),
    "server": ("intercept_server_stream_sync", lambda self, n, r, c: _s_stream(self, "server", n, r, c)),
    "bidi": ("intercept_bidi_stream_sync", lambda self, n, r, c: _s_stream(self, "bidi", n, r, c)),
}


def build(flavour: str, w: World, side: str, specs: list) -> list:
    out: list = []
    for i, spec in enumerate(specs):
        if "meta" in spec:
            out.append((MetaA if flavour == "async" else MetaS)(w, side, i, spec))
            continue
        methods = A_METHODS if flavour == "async" else S_METHODS
        ns = dict(methods[k] for k in spec["kinds"])
        out.append(type("Icept", (Base,), ns)(w, side, i, spec))
    return out


class Once:
    """An iterable that is not an iterator but can be iterated only once."""

    def __init__(self, items: list) -> None:
        self.items = items

    def __iter__(self) -> Any:
        items, self.items = self.items, []
        return iter(items)


def as_iterable(items: list, how: str) -> Any:
    if how == "dict":
        return {x: None for x in items}.keys() if items else {}
    return {"list": list, "tuple": tuple, "iter": iter, "once": Once}[how](items)


# -- the handler --------------------------------------------------------------------------------------


class Svc:
    def __init__(self, w: World) -> None:
        self.w = w

    def start(self, kind: str, ctx: Any) -> int:
        self.w.attempt += 1
        # WSGI servers join the values of repeated headers
        seen = [",".join(ctx.request_headers.getall(n)) for n in ("x-i", "x-r")]
        self.w.log.handler.append((kind, *seen))
        return self.w.attempt

    def fail(self, attempt: int, at: int) -> None:
        c = self.w.call
        if attempt <= c["fail"] and c["at"] == at:
            raise ValueError(f"h{attempt}") if c.get("plain") else ConnectError(Code.FAILED_PRECONDITION, f"h{attempt}")

    def saw(self, m: Any) -> None:
        self.w.log.handler.append(("req", m.text))

    async def unary(self, request: Any, ctx: Any) -> Any:
        a = self.start("unary", ctx)
        self.saw(request)
        self.fail(a, self.w.call["at"])
        return res(request.text + "|h")

    get = unary

    async def client(self, request: Any, ctx: Any) -> Any:
        a = self.start("client", ctx)
        texts = []
        async for m in request:
            self.saw(m)
            texts.append(m.text)
        self.fail(a, self.w.call["at"])
        return res("+".join(texts) + "|h")

    async def server(self, request: Any, ctx: Any) -> Any:
        a = self.start("server", ctx)
        self.saw(request)
        for i in range(self.w.call["n"]):
            self.fail(a, i)
            yield res(f"{request.text}|{i}")
        if self.w.call["at"] >= self.w.call["n"]:
            self.fail(a, self.w.call["at"])

    async def bidi(self, request: Any, ctx: Any) -> Any:
        a = self.start("bidi", ctx)
        i = 0
        if self.w.call["read_all"]:
            held = []
            async for m in request:
                self.saw(m)
                held.append(m)
            for m in held:
                self.fail(a, i)
                yield res(f"{m.text}|{i}")
                i += 1
        else:
            async for m in request:
                self.saw(m)
                self.fail(a, i)
                yield res(f"{m.text}|{i}")
                i += 1
        if self.w.call["at"] >= i:
            self.fail(a, self.w.call["at"])

    def unary_sync(self, request: Any, ctx: Any) -> Any:
        a = self.start("unary", ctx)
        self.saw(request)
        self.fail(a, self.w.call["at"])
        return res(request.text + "|h")

    get_sync = unary_sync

    def client_sync(self, request: Any, ctx: Any) -> Any:
        a = self.start("client", ctx)
        texts = []
        for m in request:
            self.saw(m)
            texts.append(m.text)
        self.fail(a, self.w.call["at"])
        return res("+".join(texts) + "|h")

    def server_sync(self, request: Any, ctx: Any) -> Any:
        a = self.start("server", ctx)
        self.saw(request)
        for i in range(self.w.call["n"]):
            self.fail(a, i)
            yield res(f"{request.text}|{i}")
        if self.w.call["at"] >= self.w.call["n"]:
            self.fail(a, self.w.call["at"])

    def bidi_sync(self, request: Any, ctx: Any) -> Any:
        a = self.start("bidi", ctx)
        i = 0
        if self.w.call["read_all"]:
            held = []
            for m in request:
                self.saw(m)
                held.append(m)
            for m in held:
                self.fail(a, i)
                yield res(f"{m.text}|{i}")
                i += 1
        else:
            for m in request:
                self.saw(m)
                self.fail(a, i)
                yield res(f"{m.text}|{i}")
                i += 1
        if self.w.call["at"] >= i:
            self.fail(a, self.w.call["at"])


# -- the reference composition ---------------------------------------------------------------------------


def compose_async(kind: str, icepts: list, base: Any) -> Any:
    f = base
    for ic in reversed(icepts):
        if isinstance(ic, MetaBase):
            f = _meta_async(kind, ic, f)
        elif kind in ic.spec["kinds"]:
            f = lambda r, c, ic=ic, nxt=f: getattr(ic, A_METHODS[kind][0])(nxt, r, c)  # noqa: E731
    return f


def _meta_async(kind: str, ic: Any, nxt: Any) -> Any:
    if kind in ("unary", "client"):

        async def single(r: Any, c: Any) -> Any:
            token = ic.begin(c)
            try:
                out = await nxt(r, c)
            except Exception as e:
                ic.finish(token, c, e)
                raise
            ic.finish(token, c, None)
            return out

        return single

    async def stream(r: Any, c: Any) -> Any:
        token = ic.begin(c)
        try:
            async for m in nxt(r, c):
                yield m
        except Exception as e:
            ic.finish(token, c, e)
            raise
        ic.finish(token, c, None)

    return stream


def compose_sync(kind: str, icepts: list, base: Any) -> Any:
    f = base
    for ic in reversed(icepts):
        if isinstance(ic, MetaBase):
            f = _meta_sync(kind, ic, f)
        elif kind in ic.spec["kinds"]:
            f = lambda r, c, ic=ic, nxt=f: getattr(ic, S_METHODS[kind][0])(nxt, r, c)  # noqa: E731
    return f


def _meta_sync(kind: str, ic: Any, nxt: Any) -> Any:
    if kind in ("unary", "client"):

        def single(r: Any, c: Any) -> Any:
            token = ic.begin(c)
            try:
                out = nxt(r, c)
            except Exception as e:
                ic.finish(token, c, e)
                raise
            ic.finish(token, c, None)
            return out

        return single

    def stream(r: Any, c: Any) -> Any:
        token = ic.begin(c)
        try:
            yield from nxt(r, c)
        except Exception as e:
            ic.finish(token, c, e)
            raise
        ic.finish(token, c, None)

    return stream


def texts(call: dict) -> list[str]:
    return ["q"] if call["kind"] in ("unary", "server") else [f"q{i}" for i in range(call["n"])]


@dataclass
class Outcome:
    messages: list = field(default_factory=list)
    error: Any = None
    heads: list = field(default_factory=list)
    trails: list = field(default_factory=list)


@contextlib.contextmanager
def wire_errors() -> Any:
    """Exceptions that are not RPC errors become one of code unknown with their text for the caller."""
    try:
        yield
    except ConnectError:
        raise
    except Exception as e:
        raise ConnectError(Code.UNKNOWN, str(e)) from e


async def ref_async(c: dict, w: World, call: dict) -> Outcome:
    kind = call["kind"]
    o = Outcome()
    svc = Svc(w)
    server = compose_async(kind, build("async", w, "s", c["server"]), getattr(svc, kind))
    sctx: list = []

    def over(ctx: Any) -> Any:
        # the transport: the server works with a context of its own
        s = RequestContext(method=ctx.method, http_method="POST", request_headers=Headers(list(ctx.request_headers.allitems())))
        sctx.append(s)
        return s

    if kind in ("unary", "client"):

        async def base(r: Any, ctx: Any) -> Any:
            with wire_errors():
                return await server(r, over(ctx))
    else:

        async def base(r: Any, ctx: Any) -> Any:
            with wire_errors():
                async for m in server(r, over(ctx)):
                    yield m

    f = compose_async(kind, build("async", w, "c", c["client"]), base)
    ctx = RequestContext(method=rpc.method_info(kind), http_method="POST", request_headers=Headers())

    async def stream() -> Any:
        for t in texts(call):
            yield req(t)

    r = req("q") if kind in ("unary", "server") else stream()
    try:
        if kind in ("unary", "client"):
            o.messages.append((await f(r, ctx)).text)
        else:
            async for m in f(r, ctx):
                o.messages.append(m.text)
    except Exception as e:  # noqa: BLE001
        o.error = err(e)
    if len(sctx) == 1:
        o.heads = list(sctx[0].response_headers.getall("x-i"))
        o.trails = list(sctx[0].response_trailers.getall("x-t"))
    elif sctx:
        o.heads = o.trails = None  # several exchanges
    return o


def ref_sync(c: dict, w: World, call: dict) -> Outcome:
    kind = call["kind"]
    o = Outcome()
    svc = Svc(w)
    server = compose_sync(kind, build("sync", w, "s", c["server"]), getattr(svc, kind + "_sync"))
    sctx: list = []

    def over(ctx: Any) -> Any:
        s = RequestContext(method=ctx.method, http_method="POST", request_headers=Headers(list(ctx.request_headers.allitems())))
        sctx.append(s)
        return s

    if kind in ("unary", "client"):

        def base(r: Any, ctx: Any) -> Any:
            with wire_errors():
                return server(r, over(ctx))
    else:

        def base(r: Any, ctx: Any) -> Any:
            with wire_errors():
                yield from server(r, over(ctx))

    f = compose_sync(kind, build("sync", w, "c", c["client"]), base)
    ctx = RequestContext(method=rpc.method_info(kind), http_method="POST", request_headers=Headers())
    r = req("q") if kind in ("unary", "server") else (req(t) for t in texts(call))
    try:
        if kind in ("unary", "client"):
            o.messages.append(f(r, ctx).text)
        else:
            for m in f(r, ctx):
                o.messages.append(m.text)
    except Exception as e:  # noqa: BLE001
        o.error = err(e)
    if len(sctx) == 1:
        o.heads = list(sctx[0].response_headers.getall("x-i"))
        o.trails = list(sctx[0].response_trailers.getall("x-t"))
    elif sctx:
        o.heads = o.trails = None
    return o


# -- the real thing ------------------------------------------------------------------------------------------


def observe(r: rpc.Result, md: Any) -> Outcome:
    return Outcome([m.text for m in r.raw], err(r.error), list(md.headers.getall("x-i")), list(md.trailers.getall("x-t")))


async def lifespan_start(app: Any) -> Any:
    """Starts the application's lifespan; returns a function that ends it."""
    import asyncio

    q: asyncio.Queue = asyncio.Queue()
    done: asyncio.Queue = asyncio.Queue()
    q.put_nowait({"type": "lifespan.startup"})

    async def send(m: dict) -> None:
        done.put_nowait(m)

    task = asyncio.ensure_future(app({"type": "lifespan", "asgi": {"version": "3.0"}}, q.get, send))
    m = await done.get()
    check(m["type"] == "lifespan.startup.complete", "startup", m)

    async def stop() -> None:
        q.put_nowait({"type": "lifespan.shutdown"})
        await task

    return stop


def real(c: dict, worlds: list[World]) -> list[Outcome]:
    cur = World()
    svc = Svc(cur)
    flavour = c["flavour"]
    ci, si = build(flavour, cur, "c", c["client"]), build(flavour, cur, "s", c["server"])

    def fresh(call: dict) -> None:
        cur.log, cur.call, cur.attempt = Log(), call, 0

    outs: list[Outcome] = []
    kw = dict(protocol=rpc.PROTOCOLS[c["protocol"]], send_compression=None, interceptors=as_iterable(ci, c["iterable"]))

    def keep() -> None:
        w = World()
        w.log = cur.log
        worlds.append(w)

    if flavour == "async":
        app = rpc.make_app("asgi", svc, interceptors=as_iterable(si, c["iterable"]))

        async def go() -> None:
            stop = await lifespan_start(app) if c["lifespan"] else None
            cl = rpc.aclient(http.AsgiLoopback(app), **kw)
            for call in c["calls"]:
                fresh(call)
                with ResponseMetadata() as md:
                    r = await rpc.acall(cl, call["kind"], [req(t) for t in texts(call)])
                outs.append(observe(r, md))
                keep()
            if stop:
                await stop()

        o = vclock.run(go)
        check(not o.leaked and not o.unhandled, "left-overs", lambda: f"{o.leaked} {o.unhandled}")
    else:
        app = rpc.make_app("wsgi", svc, interceptors=as_iterable(si, c["iterable"]))
        cl = rpc.sclient(http.WsgiLoopback(app), **kw)
        for call in c["calls"]:
            fresh(call)
            with ResponseMetadata() as md:
                r = rpc.scall(cl, call["kind"], [req(t) for t in texts(call)])
            outs.append(observe(r, md))
            keep()
    return outs


def test(c: dict, rec: Any) -> None:
    worlds: list[World] = []
    outs = real(c, worlds)
    for call, got, gw in zip(c["calls"], outs, worlds, strict=True):
        w = World()
        w.call = call
        want = vclock.run(lambda w=w, call=call: ref_async(c, w, call)).value if c["flavour"] == "async" else ref_sync(c, w, call)
        where = f"{c['flavour']} {c['protocol']} {call} client={c['client']} server={c['server']} {c['iterable']}"
        for side, name in (("c", "client"), ("s", "server")):
            check(gw.log.order[side] == w.log.order[side], f"{name}-trace-differs", lambda: f"{where}:\n got {gw.log.order[side]}\nwant {w.log.order[side]}")
        check(gw.log.handler == w.log.handler, "handler-sees-differently", lambda: f"{where}:\n got {gw.log.handler}\nwant {w.log.handler}")
        for key, seen in gw.log.reqs.items():
            full = w.log.reqs.get(key, [])
            n = min(len(seen), len(full))
            check(seen[:n] == full[:n], "requests-differ", lambda: f"{where}: {key}: got {seen} want {full}")
        check(got.messages == want.messages, "result-differs", lambda: f"{where}: got {got.messages} want {want.messages}")
        check(got.error == want.error, "error-differs", lambda: f"{where}: got {got.error} want {want.error}")
        if want.heads is not None:
            check(got.heads == want.heads, "response-headers-differ", lambda: f"{where}: got {got.heads} want {want.heads}")
            check(got.trails == want.trails, "response-trailers-differ", lambda: f"{where}: got {got.trails} want {want.trails}")
        rec.label(f"{c['protocol']}/{call['kind']}/{'error' if want.error else 'ok'}")
        apply = [s for s in (*c["client"], *c["server"]) if "meta" in s or call["kind"] in s["kinds"]]
        if len(apply) > 1 or any(s.get("do") for s in apply):
            rec.nontrivial(f"{call['kind']} {len(apply)} apply, {want.error}")
    rec.label(c["iterable"])


PARTS = [
    Part("async", strategy("async"), test, quick=12000, shards=4),
    Part("sync", strategy("sync"), test, quick=12000, shards=4),
]
