"""P18: service start-up and shut-down follow the server lifecycle.

Histories of lifespan events and requests, over one or two applications, are replayed against a small
model of what an ASGI server may rely on."""

from __future__ import annotations

import asyncio
import contextlib
from typing import Any

from hypothesis import strategies as st

from connectrpc.code import Code
from connectrpc.errors import ConnectError

from .. import http, rpc, vclock, wire
from ..core import Part, check, mostly
from ..gen import vt_pb as P
from ..gen import vt_pb2 as G

PID = "P18"
LEVEL = "exploration"
RULE = (
    "non-trivial: a generator service with requests around its life, more than one application, or a failing set-up or clean-up"
)
ASSUMPTIONS = [
    "clean-up is code that runs when the generator is closed: finally blocks and context managers around the yield",
    "servers send start-up once, and shut-down once after it, as ASGI prescribes",
    "requests that arrive after shut-down are not judged, except that they must not set the service up again",
]
QUICK_BUDGET = 100.0

ERR = st.sampled_from(["runtime", "connect", "key", "empty", "group", "stop"])
REQ = st.fixed_dictionaries(
    {
        "op": st.just("req"),
        "app": st.integers(0, 1),
        "kind": st.sampled_from(["unary", "get", "client", "server", "bidi"]),
        "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
        "n": st.integers(1, 2),
        "root": st.booleans(),
    }
)
NOISE = st.fixed_dictionaries({"op": st.sampled_from(["404", "websocket", "noise"]), "app": st.integers(0, 1)})
OP = st.one_of(REQ, REQ, REQ, NOISE)
APP = st.fixed_dictionaries(
    {
        "service": st.sampled_from(["gen", "gen", "gen", "plain"]),
        "style": st.sampled_from(["finally", "with", "stack", "loop", "empty"]),
        "slow": st.booleans(),
        "fail_up": st.one_of(st.none(), st.none(), st.none(), st.none(), ERR, st.just("noyield"), st.just("wrong")),
        "fail_down": st.one_of(st.none(), st.none(), st.none(), ERR),
        "interceptors": st.booleans(),
        "lifespan": st.sampled_from([True, True, True, False]),
        "during": st.lists(REQ, max_size=2),
    }
)


def strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "apps": st.lists(APP, min_size=1, max_size=2),
            "before": st.lists(OP, max_size=2),
            "main": mostly(9, st.lists(OP, max_size=5), st.lists(OP, min_size=6, max_size=30)),
            "after": st.lists(OP, max_size=2),
            "together": st.booleans(),  # requests of a phase run concurrently
        }
    )


def error(kind: str, what: str) -> Exception:
    return {
        "runtime": lambda: RuntimeError(f"no {what}"),
        "connect": lambda: ConnectError(Code.UNAVAILABLE, f"no {what}"),
        "key": lambda: KeyError(f"no {what}"),
        "empty": lambda: ValueError(),
        "group": lambda: ExceptionGroup(f"no {what}", [OSError("x")]),
        "stop": lambda: asyncio.TimeoutError(f"no {what}"),
    }[kind]()


class Svc:
    def __init__(self, name: str, log: list) -> None:
        self.name, self.log = name, log

    def hit(self, kind: str) -> Any:
        self.log.append(("handled", self.name, kind))
        return P.Res(text=f"{self.name}/{kind}")

    async def unary(self, request: Any, ctx: Any) -> Any:
        return self.hit("unary")

    async def get(self, request: Any, ctx: Any) -> Any:
        return self.hit("get")

    async def client(self, request: Any, ctx: Any) -> Any:
        async for _ in request:
            pass
        await asyncio.sleep(0.25)
        return self.hit("client")

    async def server(self, request: Any, ctx: Any) -> Any:
        yield self.hit("server")

    async def bidi(self, request: Any, ctx: Any) -> Any:
        async for _ in request:
            await asyncio.sleep(0.25)
        yield self.hit("bidi")


def generator(a: dict, name: str, log: list) -> Any:
    async def up() -> Svc | None:
        log.append(("up-begin", name))
        if a["slow"]:
            await asyncio.sleep(1)
        if a["fail_up"] == "noyield":
            return None
        if a["fail_up"] not in (None, "wrong"):
            raise error(a["fail_up"], "start")
        log.append(("up", name))
        return object() if a["fail_up"] == "wrong" else Svc(name, log)

    async def down() -> None:
        log.append(("down-begin", name))
        if a["slow"]:
            await asyncio.sleep(1)
        if a["fail_down"]:
            raise error(a["fail_down"], "stop")
        log.append(("down", name))

    async def finally_() -> Any:
        s = await up()
        if s is None:
            return
        try:
            yield s
        finally:
            await down()

    async def with_() -> Any:
        @contextlib.asynccontextmanager
        async def cm() -> Any:
            s = await up()
            try:
                yield s
            finally:
                if s is not None:
                    await down()

        async with cm() as s:
            if s is None:
                return
            yield s

    async def stack() -> Any:
        async with contextlib.AsyncExitStack() as es:
            s = await up()
            if s is None:
                return
            es.push_async_callback(down)
            yield s

    async def loop() -> Any:
        s = await up()
        if s is None:
            return
        try:
            while True:  # only the first service counts
                yield s
                log.append(("resumed", name))
                s = Svc(name + "-again", log)
        finally:
            await down()

    return {"finally": finally_, "with": with_, "stack": stack, "loop": loop, "empty": finally_}[a["style"]]()


class NoRpcs(rpc.AsgiApp):
    pass


class Tag:
    async def intercept_unary(self, call_next: Any, request: Any, ctx: Any) -> Any:
        return await call_next(request, ctx)


class Driver:
    """An ASGI server's lifespan task for one application."""

    def __init__(self, app: Any) -> None:
        self.app = app
        self.inbox: asyncio.Queue = asyncio.Queue()
        self.sent: list[dict] = []
        self.exc: BaseException | None = None
        self.event = asyncio.Event()
        self.task = asyncio.ensure_future(self._run())

    async def _run(self) -> None:
        async def send(m: dict) -> None:
            self.sent.append(m)
            self.event.set()

        try:
            await self.app({"type": "lifespan", "asgi": {"version": "3.0", "spec_version": "2.0"}, "state": {}}, self.inbox.get, send)
        except Exception as e:  # noqa: BLE001
            self.exc = e
        self.event.set()

    async def tell(self, what: str) -> None:
        self.event.clear()
        self.inbox.put_nowait({"type": f"lifespan.{what}"})
        await self.event.wait()


async def request(app: Any, op: dict) -> http.HttpOut:
    kind, proto = op["kind"], op["protocol"]
    n = 1 if kind in ("unary", "get", "server") else op["n"]
    h, body = wire.build_request(proto, kind in ("unary", "get"), "proto", [b""] * n)
    root = "/mnt" if op["root"] else ""
    out = http.HttpOut()
    await http.asgi_serve(
        app, http.asgi_scope("POST", root + rpc.path(kind), b"", h, root_path=root), http.body_events([body] if body else []), out
    )
    return out


def served(op: dict, out: http.HttpOut, name: str) -> None:
    kind = op["kind"]
    check(out.exc is None, "request-raised", lambda: f"{op}: {out.exc!r}")
    r = wire.interpret_response(
        op["protocol"], kind in ("unary", "get"), "proto", [], out.status, out.headers, out.body, out.trailers, kind not in ("server", "bidi")
    )
    check(r.error is None and len(r.messages) == 1, "request-not-served", lambda: f"{op}: {r.error}")
    got = G.Res.FromString(r.messages[0]).text
    check(got == f"{name}/{kind}", "served-by-another-service", lambda: f"{op}: {got}, expected {name}/{kind}")


def refused(op: dict, out: http.HttpOut) -> None:
    ok = out.exc is not None or out.status >= 400
    if out.exc is None and out.status == 200:
        r = wire.interpret_response(
            op["protocol"], op["kind"] in ("unary", "get"), "proto", [], out.status, out.headers, out.body, out.trailers, op["kind"] not in ("server", "bidi")
        )
        ok = r.error is not None
    check(ok, "served-without-service", lambda: f"{op}: {out.status} {out.body!r}")


def test(c: dict, rec: Any) -> None:
    log: list = []
    apps: list[Any] = []
    phase = ["new"] * len(c["apps"])

    async def one(op: dict) -> None:
        i = op["app"] % len(apps)
        a, app = c["apps"][i], apps[i]
        name = f"svc{i}"
        before = phase[i]
        n0 = len([e for e in log if e[0] == "handled" and e[1] == name])
        if op["op"] == "websocket":
            out = http.HttpOut()
            sent: list = []

            async def recv() -> Any:
                return {"type": "websocket.connect"}

            async def send(m: Any) -> None:
                sent.append(m)

            with contextlib.suppress(Exception):
                await app({"type": "websocket", "path": rpc.path("unary"), "headers": []}, recv, send)
            check(not any(m["type"] == "websocket.accept" for m in sent), "websocket-accepted", sent)
            return
        if op["op"] == "noise":
            return
        if op["op"] == "404":
            out = http.HttpOut()
            await http.asgi_serve(app, http.asgi_scope("POST", "/vt.v1.Vt/Nope"), http.body_events([b""]), out)
            if before == "up" or (before == "new" and a["service"] == "plain"):
                check(out.exc is None and out.status == 404, "unknown-path", lambda: f"{out.status} {out.exc!r}")
            return
        out = await request(app, op)
        if before in ("up", "mute") or (before in ("new", "starting") and a["service"] == "plain"):
            if a["style"] == "empty":
                check(out.exc is None and out.status == 404, "no-such-rpc", lambda: f"{op}: {out.status} {out.exc!r}")
            elif before != "mute":
                served(op, out, name)
        elif before in ("new", "starting", "failed"):
            refused(op, out)
            n1 = len([e for e in log if e[0] == "handled" and e[1] == name])
            check(n0 == n1, "handler-ran-without-service", lambda: f"{op} {before}")
            rec.label(f"refused-{before}")

    async def ops(todo: list[dict]) -> None:
        if c["together"]:
            await asyncio.gather(*(one(op) for op in todo))
        else:
            for op in todo:
                await one(op)

    async def start(i: int) -> Driver | None:
        a = c["apps"][i]
        if not a["lifespan"]:
            return None
        d = Driver(apps[i])
        phase[i] = "starting"
        t = asyncio.ensure_future(d.tell("startup"))
        if a["slow"] and a["service"] == "gen":
            await asyncio.sleep(0.5)
            for op in a["during"]:
                if phase[i] == "starting" and not t.done():
                    op = {**op, "app": i, "kind": "unary"}
                    out = await request(apps[i], op)
                    refused(op, out)
                    rec.label("refused-during-set-up")
        await t
        name = f"svc{i}"
        fails = a["service"] == "gen" and a["fail_up"]
        if fails == "wrong" and a["style"] == "empty":
            fails = None
        check(d.exc is None, "lifespan-raised", lambda: f"start-up of {a}: {d.exc!r}")
        check(len(d.sent) == 1, "lifespan-messages", lambda: f"start-up of {a}: {d.sent}")
        want = "lifespan.startup.failed" if fails else "lifespan.startup.complete"
        check(d.sent[0]["type"] == want, "start-up-outcome", lambda: f"{a}: {d.sent}")
        if fails:
            msg = d.sent[0].get("message", "")
            check(isinstance(msg, str), "start-up-message", repr(msg))
            if fails == "wrong":  # set up, but unusable: cleaned up as no shut-down will come
                check(log.count(("down-begin", name)) == 1, "clean-up-count", lambda: f"{a}: {log}")
            elif fails not in ("empty", "noyield"):
                check("no start" in msg, "start-up-message", lambda: f"{a}: {msg!r}")
            await asyncio.wait_for(d.task, 1)
            phase[i] = "failed"
            rec.label("start-up-failed")
            return None
        if a["service"] == "gen":
            check(log.count(("up", name)) == 1, "set-up-count", lambda: f"{a}: {log}")
        phase[i] = "up"
        d.inbox.put_nowait({"type": "lifespan.vendor-extension"}) if any(o["op"] == "noise" for o in c["main"]) else None
        return d

    async def stop(i: int, d: Driver) -> None:
        a = c["apps"][i]
        name = f"svc{i}"
        check(not d.task.done(), "lifespan-ended-early", lambda: f"{a}: {d.exc!r} {d.sent}")
        check(("down-begin", name) not in log, "clean-up-too-early", lambda: f"{a}: {log}")
        await d.tell("shutdown")
        await asyncio.sleep(0)
        fails = a["service"] == "gen" and a["fail_down"]
        check(d.exc is None, "lifespan-raised", lambda: f"shut-down of {a}: {d.exc!r}")
        check(len(d.sent) == 2, "lifespan-messages", lambda: f"shut-down of {a}: {d.sent}")
        want = "lifespan.shutdown.failed" if fails else "lifespan.shutdown.complete"
        check(d.sent[1]["type"] == want, "shut-down-outcome", lambda: f"{a}: {d.sent}")
        if fails and fails != "empty":
            check("no stop" in str(d.sent[1].get("message", "")), "shut-down-message", lambda: f"{a}: {d.sent}")
        if a["service"] == "gen":
            check(log.count(("down-begin", name)) == 1, "clean-up-count", lambda: f"{a}: {log}")
            if not fails:
                check(log.count(("down", name)) == 1, "clean-up-unfinished", lambda: f"{a}: {log}")
        await asyncio.wait_for(d.task, 5)
        check(len(d.sent) == 2, "lifespan-messages", lambda: f"{a}: {d.sent}")
        phase[i] = "down"

    async def go() -> None:
        for i, a in enumerate(c["apps"]):
            name = f"svc{i}"
            svc = generator(a, name, log) if a["service"] == "gen" else Svc(name, log)
            kw = {"interceptors": [Tag()]} if a["interceptors"] else {}
            if a["style"] == "empty":
                apps.append(rpc.AsgiApp(service=svc, endpoints=lambda s: {}, **kw))
            else:
                apps.append(rpc.make_app("asgi", svc, **kw))
        await ops(c["before"])
        check(not any(e[0] in ("up-begin", "down-begin") for e in log), "set-up-before-start", lambda: str(log))
        drivers = [await start(i) for i in range(len(apps))]
        await ops(c["main"])
        for i, d in reversed(list(enumerate(drivers))):
            if d is not None:
                await stop(i, d)
        ended = list(log)
        await ops(c["after"])
        for i in range(len(apps)):
            for what in ("up-begin", "up", "down-begin", "down"):
                e = (what, f"svc{i}")
                check(log.count(e) == ended.count(e), "lifecycle-after-shut-down", lambda: f"{e}: {log}")
            check(log.count(("up-begin", f"svc{i}")) <= 1, "set-up-count", lambda: str(log))
            check(("resumed", f"svc{i}") not in log, "generator-resumed", lambda: str(log))
            if c["apps"][i]["service"] == "gen" and not c["apps"][i]["lifespan"]:
                check(("up-begin", f"svc{i}") not in log, "set-up-without-lifespan", lambda: str(log))

    o = vclock.run(go)
    check(not o.leaked and not o.unhandled, "left-overs", lambda: f"{o.leaked} {o.unhandled}")
    for a in c["apps"]:
        rec.label(f"{a['service']}/{a['style']}")
    if (
        len(apps) > 1
        or any(a["service"] == "gen" and (a["fail_up"] or a["fail_down"]) for a in c["apps"])
        or (c["apps"][0]["service"] == "gen" and c["main"])
    ):
        rec.nontrivial(str([(a["service"], a["fail_up"], a["fail_down"], a["lifespan"]) for a in c["apps"]]))


PARTS = [Part("histories", strategy, test, quick=8000, shards=8)]
