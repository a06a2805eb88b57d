"""P16: cancelled or abandoned calls are cleaned up promptly."""

from __future__ import annotations

import asyncio
import contextlib
import gc
from typing import Any

from hypothesis import strategies as st

from connectrpc.code import Code
from connectrpc.errors import ConnectError

from .. import http, interop, rpc, vclock, wire
from ..core import Part, check
from ..gen import vt_pb as P

PID = "P16"
LEVEL = "exploration"
RULE = "non-trivial: the cut happens while the handler has started and not finished"
ASSUMPTIONS = [
    "a handler that waits for something other than its requests is interrupted at its next response "
    "(ASGI reports a disconnect without cancelling the application)",
    "interceptors written by users close the streams they stop forwarding",
    "a cancellation that arrives while clean-up code is running may interrupt that clean-up",
    "an iterator of requests passed in by a caller is not pulled any further, closing it is up to the caller",
]
QUICK_BUDGET = 100.0
KINDS = ["unary", "client", "server", "bidi"]

STEP = st.one_of(
    st.tuples(st.just("sleep"), st.sampled_from([0, 0.05, 0.2, 1.0])),
    st.tuples(st.just("read"), st.just(0)),
    st.tuples(st.just("yield"), st.just(0)),
    st.tuples(st.just("yield"), st.just(0)),
)
PROG = st.fixed_dictionaries(
    {
        "steps": st.lists(STEP, max_size=6),
        "loop": st.booleans(),
        "cleanup": st.sampled_from([0, 0, 0.1, 0.5]),
        "throws": st.sampled_from([False, False, False, True]),
        "retain": st.booleans(),
        "wrap": st.booleans(),  # the handler is a generator around another one
    }
)
ICEPTS = st.lists(st.sampled_from(["meta", "slowmeta", "closing"]), max_size=3)
TIME = st.one_of(st.sampled_from([0, 0.05, 0.1, 0.2, 0.25, 0.3, 1.0, 1.05]), st.integers(0, 40).map(lambda i: i / 20))


class World:
    def __init__(self) -> None:
        self.log: list[tuple] = []
        self.retained: list = []

    def ev(self, *what: Any) -> None:
        self.log.append((*what, round(vclock.CLOCK.now - 1000.0, 6)))

    def times(self, *what: Any) -> list[float]:
        return [e[-1] for e in self.log if e[: len(what)] == what]

    def index(self, *what: Any) -> int:
        return next(i for i, e in enumerate(self.log) if e[: len(what)] == what)


def program(prog: dict, kind: str, reads_needed: bool) -> tuple[list, bool]:
    steps = [tuple(s) for s in prog["steps"]]
    if kind in ("unary", "client"):
        steps = [s for s in steps if s[0] != "yield"]
    if kind in ("unary", "server"):
        steps = [s for s in steps if s[0] != "read"]
    loop = prog["loop"] and kind in ("server", "bidi")
    if loop:
        if kind == "bidi" and reads_needed and not any(s[0] == "read" for s in steps):
            steps.append(("read", 0))
        if not any(s[0] == "yield" for s in steps):
            steps.append(("yield", 0))
        if not any(s[0] == "sleep" and s[1] for s in steps):
            steps.append(("sleep", 0.2))
    return steps, loop


# -- asynchronous handlers and interceptors ---------------------------------------------------------


class Svc:
    def __init__(self, w: World, prog: dict, kind: str, reads_needed: bool) -> None:
        self.w, self.prog = w, prog
        self.steps, self.loop = program(prog, kind, reads_needed)

    async def _cleanup(self) -> None:
        self.w.ev("cleanup-begin")
        if self.prog["cleanup"]:
            await asyncio.sleep(self.prog["cleanup"])
        self.w.ev("cleanup-end")
        if self.prog["throws"]:
            raise RuntimeError("clean-up failed")

    async def _body(self, requests: Any) -> Any:
        """Yields at every response."""
        it = aiter(requests) if requests is not None else None
        ended = False
        n = 0
        while True:
            for what, arg in self.steps:
                if what == "sleep":
                    await asyncio.sleep(arg)
                elif what == "read" and not ended:
                    try:
                        await anext(it)
                        self.w.ev("read")
                    except StopAsyncIteration:
                        ended = True
                elif what == "yield":
                    n += 1
                    self.w.ev("yield")
                    yield P.Res(text=str(n))
            if not self.loop or ended:
                return

    async def _single(self, requests: Any) -> Any:
        self.w.ev("begin")
        try:
            async for _ in self._body(requests):
                pass
            self.w.ev("finish")
            return P.Res(text="done")
        finally:
            await self._cleanup()

    async def _stream(self, requests: Any) -> Any:
        self.w.ev("begin")
        try:
            async with contextlib.aclosing(self._body(requests)) as body:
                async for m in body:
                    yield m
            self.w.ev("finish")
        finally:
            await self._cleanup()

    async def _wrapped(self, requests: Any) -> Any:
        async with contextlib.aclosing(self._stream(requests)) as s:
            async for m in s:
                yield m

    def _start(self, requests: Any) -> Any:
        s = (self._wrapped if self.prog["wrap"] else self._stream)(requests)
        if self.prog["retain"]:
            self.w.retained.append(s)
        return s

    async def unary(self, request: Any, ctx: Any) -> Any:
        if ctx.request_headers.get("x-other"):
            await asyncio.sleep(0.3)
            return P.Res(text="other")
        return await self._single(None)

    get = unary

    async def client(self, request: Any, ctx: Any) -> Any:
        return await self._single(request)

    def server(self, request: Any, ctx: Any) -> Any:
        return self._start(None)

    def bidi(self, request: Any, ctx: Any) -> Any:
        return self._start(request)


class Meta:
    def __init__(self, w: World, tag: str, slow: bool) -> None:
        self.w, self.tag, self.slow = w, tag, slow

    async def on_start(self, ctx: Any) -> Any:
        if self.slow:
            await asyncio.sleep(0.05)
        if not ctx.request_headers.get("x-other"):
            self.w.ev("start", self.tag)

    async def on_end(self, token: Any, ctx: Any, error: Any) -> None:
        if not ctx.request_headers.get("x-other"):
            self.w.ev("end", self.tag)
        if self.slow:
            await asyncio.sleep(0.05)

    def on_start_sync(self, ctx: Any) -> Any:
        self.w.ev("start", self.tag)

    def on_end_sync(self, token: Any, ctx: Any, error: Any) -> None:
        self.w.ev("end", self.tag)


class ClosingAsync:
    async def intercept_server_stream(self, call_next: Any, request: Any, ctx: Any) -> Any:
        async with contextlib.aclosing(call_next(request, ctx)) as s:
            async for m in s:
                yield m

    async def intercept_bidi_stream(self, call_next: Any, request: Any, ctx: Any) -> Any:
        async with contextlib.aclosing(call_next(request, ctx)) as s:
            async for m in s:
                yield m


class ClosingSync:
    def intercept_server_stream_sync(self, call_next: Any, request: Any, ctx: Any) -> Any:
        with contextlib.closing(call_next(request, ctx)) as s:
            yield from s

    def intercept_bidi_stream_sync(self, call_next: Any, request: Any, ctx: Any) -> Any:
        with contextlib.closing(call_next(request, ctx)) as s:
            yield from s


def meta_async(w: World, tag: str, slow: bool) -> Any:
    m = Meta(w, tag, slow)

    class M:
        async def on_start(self, ctx: Any) -> Any:
            await m.on_start(ctx)

        async def on_end(self, token: Any, ctx: Any, error: Any) -> None:
            await m.on_end(token, ctx, error)

    return M()


def meta_sync(w: World, tag: str) -> Any:
    m = Meta(w, tag, False)

    class M:
        def on_start_sync(self, ctx: Any) -> Any:
            m.on_start_sync(ctx)

        def on_end_sync(self, token: Any, ctx: Any, error: Any) -> None:
            m.on_end_sync(token, ctx, error)

    return M()


def icepts(flavour: str, w: World, names: list[str], side: str) -> list:
    if flavour == "async":
        return [
            ClosingAsync() if n == "closing" else meta_async(w, f"{side}{i}", n == "slowmeta") for i, n in enumerate(names)
        ]
    return [ClosingSync() if n == "closing" else meta_sync(w, f"{side}{i}") for i, n in enumerate(names)]


def judge_interceptors(w: World, side: str, where: str, inner: list[tuple]) -> None:
    """Every start has one end, innermost first, after the `inner` events."""
    starts = [e[1] for e in w.log if e[0] == "start" and e[1][0] == side]
    ends = [e[1] for e in w.log if e[0] == "end" and e[1][0] == side]
    check(ends == starts[::-1], "interceptor-ends", lambda: f"{where}: started {starts}, ended {ends}: {w.log}")
    if ends:
        first_end = w.index("end", ends[0])
        for what in inner:
            if w.times(*what):
                last = max(i for i, e in enumerate(w.log) if e[: len(what)] == what)
                check(last < first_end, "interceptor-ended-before-call", lambda: f"{where}: {what}: {w.log}")


def judge_handler(w: World, cut: float | None, where: str) -> None:
    """Every handler that began has been cleaned up, once."""
    begun = len(w.times("begin"))
    check(len(w.times("cleanup-begin")) == begun, "handler-not-cleaned-up", lambda: f"{where}: {w.log}")
    if begun and not w.times("cleanup-end"):
        t = w.times("cleanup-begin")[0]
        check(cut is not None and t <= cut + 1e-6, "clean-up-unfinished", lambda: f"{where}: {w.log}")


# -- ASGI applications under cuts ----------------------------------------------------------------------


def asgi_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(KINDS),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "prog": PROG,
            "reqs": st.lists(st.sampled_from([0, 0, 0.05, 0.2]), min_size=1, max_size=4),  # gaps before messages
            "more": st.booleans(),  # the request stays open after its last message
            "cut": st.sampled_from(["disconnect", "cancel", "oserror", "disconnect-oserror"]),
            "at": TIME,
            "send_delay": st.sampled_from([0, 0, 0.05, 0.1]),
            "icepts": ICEPTS,
            "other": st.booleans(),
        }
    )


def asgi_test(c: dict, rec: Any) -> None:
    kind, proto, cut, at = c["kind"], c["protocol"], c["cut"], c["at"]
    w = World()
    svc = Svc(w, c["prog"], kind, cut == "disconnect")
    app = rpc.make_app("asgi", svc, interceptors=icepts("async", w, c["icepts"], "s"))
    single = kind in ("unary", "server")
    gaps = c["reqs"][:1] if single else c["reqs"]
    h, body = wire.build_request(proto, kind == "unary", "proto", [b""] * len(gaps))
    if kind == "unary" and proto == "connect":
        pieces = [(gaps[0], body)]
    else:
        pieces = [(g, wire.env(0, b"")) for g in gaps]
    more = c["more"] and not single
    sleeps = sum(s[1] for s in svc.steps)
    where = f"{cut}@{at} {c}"
    out = http.HttpOut()
    rec_out = http.AsgiRecorder(out)
    state: dict[str, Any] = {}

    async def go() -> None:
        loop = asyncio.get_running_loop()
        gone = loop.create_future()
        ended = loop.create_future()
        todo = list(pieces)

        async def receive() -> dict:
            if todo and not gone.done():
                gap, data = todo[0]
                wake = asyncio.ensure_future(asyncio.sleep(gap))
                try:
                    await asyncio.wait([wake, gone], return_when=asyncio.FIRST_COMPLETED)
                finally:
                    wake.cancel()
                if not gone.done():
                    todo.pop(0)
                    return {"type": "http.request", "body": data, "more_body": bool(todo) or more}
            elif not gone.done() and not more and not state.get("body-done"):
                state["body-done"] = True
            await asyncio.wait([gone, ended], return_when=asyncio.FIRST_COMPLETED)
            return {"type": "http.disconnect"}

        async def send(msg: dict) -> None:
            if "oserror" in cut and gone.done():
                raise OSError("client is gone")
            rec_out.feed(msg)
            w.ev("send", msg["type"])
            if out.complete and not ended.done():
                ended.set_result(None)
            # servers take the message at once and then wait for the socket
            await asyncio.sleep(c["send_delay"])

        scope = http.asgi_scope("POST", rpc.path(kind), b"", h)

        async def serve() -> None:
            try:
                await app(scope, receive, send)
            except Exception as e:  # noqa: BLE001
                state["exc"] = e
            finally:
                w.ev("app-done")

        async def other() -> None:
            h2, b2 = wire.build_request("connect", True, "proto", [b""], headers=[("x-other", "1")])
            o2 = http.HttpOut()
            await http.asgi_serve(app, http.asgi_scope("POST", rpc.path("unary"), b"", h2), http.body_events([]), o2)
            state["other"] = o2

        task = loop.create_task(serve())
        o = loop.create_task(other()) if c["other"] else None
        await asyncio.sleep(at)
        if not task.done():
            state["cut"] = True
            state["unfinished"] = bool(w.times("begin")) and not w.times("cleanup-begin")
            w.ev("cut")
            if cut == "cancel":
                task.cancel()
            else:
                if cut != "oserror":
                    gone.set_result(None)
                elif not gone.done():
                    gone.set_result(None)
        with contextlib.suppress(asyncio.CancelledError):
            await task
        w.ev("joined")
        for s in w.retained:
            check(s.ag_frame is None or not s.ag_running, "handler-still-running", where)
        if o is not None:
            await o

    o = vclock.run(go)
    check(not o.leaked, "background-tasks-left", lambda: f"{where}: {o.leaked}")
    check(not o.unhandled, "unhandled", lambda: f"{where}: {o.unhandled}")
    judge_handler(w, at if cut == "cancel" else None, where)
    done = w.times("app-done")[0]
    for name in ("cleanup-begin", "cleanup-end", "end"):
        for t in [i for i, e in enumerate(w.log) if e[0] == name]:
            check(t < w.index("app-done"), "cleaned-up-after-application-finished", lambda: f"{where}: {w.log}")
    judge_interceptors(w, "s", where, [("cleanup-begin",), ("cleanup-end",)])
    slack = 0.1 * len(c["icepts"]) + c["prog"]["cleanup"] + (len(svc.steps) + 4) * c["send_delay"] + 0.01
    bound = max(at, sum(g for g, _ in pieces)) + sleeps + slack + (sleeps + slack if kind != "server" or not svc.loop else 0)
    check(done <= bound + 1e-6, "application-finished-late", lambda: f"{where}: at {done}, bound {bound}: {w.log}")
    if "other" in state:
        o2 = state["other"]
        check(o2.exc is None and o2.status == 200 and o2.body == P.Res(text="other").to_binary(), "other-call-affected", lambda: f"{where}: {o2.status} {o2.body!r} {o2.exc!r}")
    if "cut" in state:
        late = [t for t in w.times("yield") if t > at + 1e-9]
        if kind == "server" or cut == "cancel":
            limit = 0 if cut == "cancel" else 1
            check(len(late) <= limit, "produced-after-cut", lambda: f"{where}: {late}: {w.log}")
        if out.complete and not w.times("finish"):
            r = wire.interpret_response(proto, kind == "unary", "proto", [], out.status, out.headers, out.body, out.trailers, False)
            check(r.error is not None, "success-claimed-for-interrupted-call", lambda: f"{where}: {out.body!r} {out.trailers} {w.log}")
        rec.label(f"{cut}/{kind}")
        if state["unfinished"]:
            rec.label("mid-handler")
            rec.nontrivial(f"{cut} {kind} {proto}")


# -- callers of the asynchronous client -------------------------------------------------------------------


def client_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(KINDS),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "prog": PROG,
            "reqs": st.lists(st.sampled_from([0, 0, 0.05, 0.2]), min_size=1, max_size=4),
            "endless": st.booleans(),
            "how": st.sampled_from(["close", "drop", "raise", "cancel", "cancel", "cancel", "wait_for"]),
            "take": st.integers(0, 3),
            "at": TIME,
            "cod": st.booleans(),  # the server cancels the application when the client is gone
            "ci": ICEPTS,
            "si": ICEPTS,
            "plan": rpc.PLAN,
            "timeout": st.sampled_from([None, None, 60_000]),
            "other": st.booleans(),
        }
    )


class Boom(Exception):
    pass


class Loopback(http.AsgiLoopback):
    """Notes when the client lets go of a response."""

    def __init__(self, w: World, app: Any, **kw: Any) -> None:
        super().__init__(app, **kw)
        self.w = w

    async def execute(self, request: Any) -> Any:
        r = await super().execute(request)
        if request.headers.get("x-other"):
            return r
        inner = r.content
        w = self.w

        async def content() -> Any:
            try:
                async with contextlib.aclosing(inner):
                    async for c in inner:
                        yield c
            finally:
                w.ev("released")

        import pyqwest

        return pyqwest.Response(status=r.status, headers=r.headers, content=content(), trailers=r.trailers)


def client_test(c: dict, rec: Any) -> None:
    kind, how, at = c["kind"], c["how"], c["at"]
    if kind in ("unary", "client") and how in ("close", "drop", "raise"):
        how = "cancel"
    w = World()
    svc = Svc(w, c["prog"], kind, not c["cod"])
    where = f"{how} {c}"
    app = rpc.make_app("asgi", svc, interceptors=icepts("async", w, c["si"], "s"))
    lb = Loopback(w, app, res_plan=c["plan"], cancel_on_disconnect=c["cod"])
    state: dict[str, Any] = {}

    async def go() -> None:
        cl = rpc.aclient(
            lb, protocol=rpc.PROTOCOLS[c["protocol"]], send_compression=None, accept_compression=[],
            interceptors=icepts("async", w, c["ci"], "c"), timeout_ms=c["timeout"],
        )
        mi = rpc.method_info(kind)

        async def requests() -> Any:
            i = 0
            while c["endless"] or i < len(c["reqs"]):
                await asyncio.sleep(c["reqs"][i % len(c["reqs"])] or (0.01 if c["endless"] else 0))
                w.ev("pull")
                yield P.Req(text=str(i))
                i += 1

        async def call() -> None:
            try:
                if kind == "unary":
                    await cl.execute_unary(request=P.Req(), method=mi)
                elif kind == "client":
                    await cl.execute_client_stream(request=requests(), method=mi)
                else:
                    it = (
                        cl.execute_server_stream(request=P.Req(), method=mi)
                        if kind == "server"
                        else cl.execute_bidi_stream(request=requests(), method=mi)
                    )
                    n = 0
                    if how in ("cancel", "wait_for"):
                        async for _ in it:
                            pass
                    elif how == "raise":
                        async with contextlib.aclosing(it):
                            async for _ in it:
                                n += 1
                                if n > c["take"]:
                                    mark()
                                    raise Boom
                    else:
                        if how == "drop" or c["take"]:
                            async for _ in it:
                                n += 1
                                if n > c["take"]:
                                    break
                        mark()
                        if how == "close":
                            await it.aclose()
                        del it
                        if how == "drop":
                            gc.collect(0)
                state["completed"] = True
            except Boom:
                pass

        def mark() -> None:
            state["cut"] = vclock.CLOCK.now - 1000.0
            state["unfinished"] = bool(w.times("begin")) and not w.times("cleanup-begin")
            w.ev("cut")

        async def other() -> None:
            r = await rpc.acall(cl, "unary", [P.Req()], headers={"x-other": "1"})
            state["other"] = r

        o = asyncio.ensure_future(other()) if c["other"] else None
        task = asyncio.ensure_future(call())
        if how == "cancel":
            await asyncio.sleep(at)
            if not task.done():
                mark()
                task.cancel()
        elif how == "wait_for":
            task = asyncio.ensure_future(asyncio.wait_for(task, at))

            async def watch() -> None:
                await asyncio.sleep(at)
                if not task.done():
                    mark()

            await watch()
        try:
            await asyncio.wait_for(task, 3000)
        except (asyncio.CancelledError, ConnectError, TimeoutError) as e:
            state["error"] = e
        w.ev("caller-done")
        if how == "drop":
            await asyncio.sleep(0.5)
        w.ev("settled")
        await asyncio.sleep(120)
        if o is not None:
            await o

    o = vclock.run(go)
    check(not o.leaked, "background-tasks-left", lambda: f"{where}: {o.leaked}")
    check(not o.unhandled, "unhandled", lambda: f"{where}: {o.unhandled}")
    for t in lb.server_tasks:
        check(t.done(), "application-not-finished", where)
    if "other" in state:
        r = state["other"]
        check(r.error is None and r.raw[0].text == "other", "other-call-affected", lambda: f"{where}: {r.error!r}")
    judge_handler(w, state.get("cut") if c["cod"] else None, where)
    judge_interceptors(w, "s", where, [("cleanup-begin",), ("cleanup-end",)])
    judge_interceptors(w, "c", where, [("released",)])
    settled = w.index("settled")
    for i, e in enumerate(w.log):
        if e[0] == "released" or (e[0] == "end" and e[1][0] == "c"):
            check(i < settled, "client-released-late", lambda: f"{where}: {w.log}")
    if "cut" in state:
        cut = state["cut"]
        late = [t for t in w.times("pull") if t > w.times("settled")[0] + 1e-9]
        check(not late, "requests-pulled-after-end", lambda: f"{where}: {late}: {w.log}")
        sends = [i for i, e in enumerate(w.log) if e[0] == "start" and e[1][0] == "c"]
        del sends
        if w.times("begin"):
            end = w.times("cleanup-begin")[0]
            sleeps = sum(s[1] for s in svc.steps)
            bound = cut + 0.2 + (0.15 if c["cod"] else sleeps * (1 if svc.loop else 2)) + 0.1 * len(c["si"] + c["ci"])
            check(end <= bound + 1e-6, "handler-interrupted-late", lambda: f"{where}: {end} > {bound}: {w.log}")
        if how in ("cancel", "wait_for"):
            done = w.times("caller-done")[0]
            check(done <= cut + 0.1 * (len(c["ci"]) + 1) + 1e-6, "caller-released-late", lambda: f"{where}: {done}: {w.log}")
            check("error" in state or not state["unfinished"], "cancelled-call-succeeded", lambda: f"{where}: {w.log}")
        rec.label(f"{how}/{kind}/{'cod' if c['cod'] else 'notice'}")
        if state["unfinished"]:
            rec.nontrivial(f"{how} {kind} {c['protocol']} {c['cod']}")


# -- WSGI applications and synchronous clients ---------------------------------------------------------------


class SvcSync:
    def __init__(self, w: World, prog: dict, kind: str) -> None:
        self.w, self.prog = w, prog
        self.steps, self.loop = program(prog, kind, False)

    def _cleanup(self) -> None:
        self.w.ev("cleanup-begin")
        self.w.ev("cleanup-end")
        if self.prog["throws"]:
            raise RuntimeError("clean-up failed")

    def _body(self, requests: Any) -> Any:
        it = iter(requests) if requests is not None else None
        ended = False
        n = 0
        while True:
            for what, _ in self.steps:
                if what == "read" and not ended:
                    try:
                        next(it)
                        self.w.ev("read")
                    except StopIteration:
                        ended = True
                elif what == "yield":
                    n += 1
                    self.w.ev("yield")
                    yield P.Res(text=str(n))
            if not self.loop or ended or n > 300:
                return

    def _stream(self, requests: Any) -> Any:
        self.w.ev("begin")
        try:
            yield from self._body(requests)
            self.w.ev("finish")
        finally:
            self._cleanup()

    def _wrapped(self, requests: Any) -> Any:
        yield from self._stream(requests)

    def _start(self, requests: Any) -> Any:
        s = (self._wrapped if self.prog["wrap"] else self._stream)(requests)
        if self.prog["retain"]:
            self.w.retained.append(s)
        return s

    def server_sync(self, request: Any, ctx: Any) -> Any:
        return self._start(None)

    def bidi_sync(self, request: Any, ctx: Any) -> Any:
        return self._start(request)

    def unary_sync(self, request: Any, ctx: Any) -> Any:
        return P.Res(text="other")

    get_sync = unary_sync

    def client_sync(self, request: Any, ctx: Any) -> Any:
        return P.Res(text="other")


def wsgi_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["server", "bidi"]),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "prog": PROG,
            "n": st.integers(1, 4),
            "take": st.integers(0, 4),
            "fault": st.sampled_from(["none", "none", "none", "input"]),
            "icepts": ICEPTS,
        }
    )


def wsgi_test(c: dict, rec: Any) -> None:
    kind, proto = c["kind"], c["protocol"]
    w = World()
    svc = SvcSync(w, c["prog"], kind)
    app = rpc.make_app("wsgi", svc, interceptors=icepts("sync", w, c["icepts"], "s"))
    n = 1 if kind == "server" else c["n"]
    h, _ = wire.build_request(proto, False, "proto", [b""] * n)
    where = str(c)

    def chunks() -> Any:
        for _ in range(n):
            w.ev("input")
            yield wire.env(0, b"")
        if c["fault"] == "input" and kind == "bidi":
            w.ev("input-fails")
            raise OSError("client is gone")

    inp = http.ChunkedInput(chunks())
    out = http.HttpOut()
    resp = None
    with vclock.frozen():
        try:
            resp = http.WsgiResponse(app, http.wsgi_environ("POST", rpc.path(kind), "", h, inp), out)
            done = False
            for _ in range(c["take"]):
                if resp.next_chunk() is None:
                    done = True
                    break
        except OSError:
            check(c["fault"] == "input", "raised", where)
            done = True
        unfinished = bool(w.times("begin")) and not w.times("cleanup-begin")
        w.ev("cut")
        reads = inp.reads
        if resp is not None:
            try:
                resp.close()
            except RuntimeError as e:
                check(c["prog"]["throws"] and "clean-up failed" in str(e), "close-raised", lambda: f"{where}: {e!r}")
        w.ev("closed")
    closed = w.index("closed")
    judge_handler(w, None, where)
    judge_interceptors(w, "s", where, [("cleanup-begin",), ("cleanup-end",)])
    cut = w.index("cut")
    check(not any(e[0] in ("yield", "read", "input") for e in w.log[cut:]), "continued-after-close", lambda: f"{where}: {w.log}")
    check(inp.reads == reads, "request-read-after-close", lambda: f"{where}: {w.log}")
    check(closed == len(w.log) - 1, "activity-after-close", lambda: f"{where}: {w.log}")
    if not done and out.complete:
        check(bool(w.times("finish")), "complete-without-finish", lambda: f"{where}: {w.log}")
    rec.label(f"{kind}/{proto}")
    if unfinished:
        rec.nontrivial(f"{kind} {proto} {c['prog']['retain']}")


def sync_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["server", "bidi"]),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "prog": PROG,
            "n": st.integers(1, 4),
            "take": st.integers(0, 4),
            "how": st.sampled_from(["close", "drop", "raise"]),
            "ci": ICEPTS,
            "si": ICEPTS,
            "plan": rpc.PLAN,
        }
    )


def sync_test(c: dict, rec: Any) -> None:
    kind, how = c["kind"], c["how"]
    w = World()
    svc = SvcSync(w, {**c["prog"], "throws": False}, kind)
    where = str(c)
    app = rpc.make_app("wsgi", svc, interceptors=icepts("sync", w, c["si"], "s"))
    cl = rpc.sclient(
        http.WsgiLoopback(app, res_plan=c["plan"]), protocol=rpc.PROTOCOLS[c["protocol"]], send_compression=None,
        accept_compression=[], interceptors=icepts("sync", w, c["ci"], "c"),
    )
    mi = rpc.method_info(kind)

    def requests() -> Any:
        for i in range(c["n"]):
            w.ev("pull")
            yield P.Req(text=str(i))

    with vclock.frozen():
        it = cl.execute_server_stream(request=P.Req(), method=mi) if kind == "server" else cl.execute_bidi_stream(request=requests(), method=mi)
        n = 0
        unfinished = False
        try:
            if how == "raise":
                with contextlib.closing(it):
                    for _ in it:
                        n += 1
                        if n > c["take"]:
                            w.ev("cut")
                            unfinished = not w.times("cleanup-begin")
                            raise Boom
            else:
                while n < c["take"]:
                    if next(it, None) is None:
                        break
                    n += 1
                w.ev("cut")
                unfinished = bool(w.times("begin")) and not w.times("cleanup-begin")
                if how == "close":
                    it.close()
                del it
        except Boom:
            pass
        w.ev("closed")
    judge_handler(w, None, where)
    judge_interceptors(w, "s", where, [("cleanup-begin",), ("cleanup-end",)])
    judge_interceptors(w, "c", where, [("cleanup-begin",)])
    if w.times("cut"):
        cut = w.index("cut")
        check(not any(e[0] in ("yield", "read", "pull") for e in w.log[cut:]), "continued-after-close", lambda: f"{where}: {w.log}")
    rec.label(f"{kind}/{how}")
    if unfinished:
        rec.nontrivial(f"{how} {kind} {c['protocol']}")


PARTS = [
    Part("asgi", asgi_strategy, asgi_test, quick=8000, shards=4),
    Part("client", client_strategy, client_test, quick=6000, shards=4),
    Part("wsgi", wsgi_strategy, wsgi_test, quick=4000, shards=2),
    Part("sync-client", sync_strategy, sync_test, quick=4000, shards=2),
    Part("sockets", interop.abandon_strategy, interop.abandon_test, quick=120, shards=2),
]
