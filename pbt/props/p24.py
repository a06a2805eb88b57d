"""P24: streaming is incremental in both directions."""

from __future__ import annotations

import asyncio
from typing import Any

import pyqwest
from hypothesis import strategies as st

from connectrpc.client import ResponseMetadata
from connectrpc.request import Headers

from .. import http, interop, msgs, rpc, vclock, wire
from ..core import Part, check, mostly

PID = "P24"
LEVEL = "exploration"
RULE = (
    "non-trivial: at least two messages flow, and somewhere one side waits for the other "
    "(a response depends on a request or the next message on the receipt of the previous one)"
)
ASSUMPTIONS = [
    "full-duplex transport for ASGI; WSGI input that returns what has arrived (short reads); the caller's "
    "iterators are pulled when the transport asks for request bytes",
]
QUICK_BUDGET = 100.0
ALGO = st.sampled_from([None, None, "gzip", "br", "zstd"])


class PassAsync:
    """Stream interceptors that forward message by message."""

    async def intercept_server_stream(self, call_next: Any, request: Any, ctx: Any) -> Any:
        async for m in call_next(request, ctx):
            yield m

    async def intercept_bidi_stream(self, call_next: Any, request: Any, ctx: Any) -> Any:
        async for m in call_next(request, ctx):
            yield m


class MetaAsync:
    async def on_start(self, ctx: Any) -> int:
        return 1

    async def on_end(self, token: Any, ctx: Any, error: Any) -> None:
        return None


class PassSync:
    def intercept_server_stream_sync(self, call_next: Any, request: Any, ctx: Any) -> Any:
        yield from call_next(request, ctx)

    def intercept_bidi_stream_sync(self, call_next: Any, request: Any, ctx: Any) -> Any:
        yield from call_next(request, ctx)


class MetaSync:
    def on_start_sync(self, ctx: Any) -> int:
        return 1

    def on_end_sync(self, token: Any, ctx: Any, error: Any) -> None:
        return None


def icept(names: list[str], flavour: str) -> list:
    if flavour == "async":
        return [{"pass": PassAsync, "meta": MetaAsync}[n]() for n in names]
    return [{"pass": PassSync, "meta": MetaSync}[n]() for n in names]


BASE = {
    "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
    "codec": st.sampled_from(["proto", "json"]),
    "send": ALGO,
    "accept": rpc.COMP_SET,
    "plan": rpc.PLAN,
    "rplan": rpc.PLAN,
    "ci": st.lists(st.sampled_from(["pass", "meta"]), max_size=2),
    "si": st.lists(st.sampled_from(["pass", "meta"]), max_size=2),
    "timeout": st.sampled_from([None, None, 60_000]),
}
ANY_MSG = st.one_of(msgs.reqs(), msgs.reqs(), msgs.reqs(20000))
ANY_RES = st.one_of(msgs.ress(), msgs.ress(), msgs.ress(20000))


COUNT = mostly(9, st.integers(0, 6), st.sampled_from([20, 70, 150]))
WORD = mostly(9, st.text("cr", max_size=10), st.tuples(st.text("cr", min_size=1, max_size=6), st.sampled_from([10, 40])).map(lambda t: t[0] * t[1]))


# -- conversations on a full-duplex connection --------------------------------------------------


def talk_strategy() -> st.SearchStrategy:
    bidi = st.tuples(st.just("bidi"), WORD, st.integers(0, 4).map(lambda n: "r" * n)).map(
        lambda t: (t[0], t[1] + "E" + t[2])
    )
    server = COUNT.map(lambda n: ("server", "cE" + "r" * n))
    client = COUNT.map(lambda n: ("client", "c" * n + "Er"))
    return st.fixed_dictionaries(
        {
            **BASE,
            "word": st.one_of(bidi, bidi, bidi, server, client),
            "reqs": st.lists(ANY_MSG, min_size=1, max_size=4),
            "ress": st.lists(ANY_RES, min_size=1, max_size=4),
            "end_error": st.one_of(st.none(), st.none(), rpc.CONNECT_ERRORS),
        }
    )


class Talk:
    """Handler and caller follow the word: c = the caller sends, r = the handler responds, E = the
    caller ends its stream. Each waits until everything before in the word has arrived."""

    def __init__(self, c: dict) -> None:
        self.c = c
        self.kind, self.word = c["word"]
        self.changed = asyncio.Event()
        self.client_got = 0
        self.server_got = 0
        self.server_end = False
        self.produced = 0
        self.errors: list[str] = []

    async def until(self, cond: Any) -> None:
        while not cond():
            self.changed.clear()
            await self.changed.wait()

    def poke(self) -> None:
        self.changed.set()

    def req(self, i: int) -> dict:
        return self.c["reqs"][i % len(self.c["reqs"])]

    def res(self, i: int) -> dict:
        return self.c["ress"][i % len(self.c["ress"])]

    async def requests(self) -> Any:
        sent = resp = 0
        for ch in self.word:
            if ch == "r":
                resp += 1
                continue
            # everything before this point of the word must have arrived
            if self.kind != "client":
                await self.until(lambda n=resp: self.client_got >= n)
            await self.until(lambda n=sent: self.server_got >= n)
            if ch == "E":
                return
            self.produced += 1
            yield rpc.mk_req("py", self.req(sent))
            sent += 1

    async def _run(self, request: Any, ctx: Any) -> Any:
        ctx.response_headers.add("x-h", "v")
        it = request.__aiter__()
        got = sent = 0
        for ch in self.word:
            if ch == "c":
                m = await it.__anext__()
                check(msgs.norm(m) == msgs.nreq(self.req(got)), "request-differs", "")
                check(self.produced == got + 1, "request-produced-early", lambda: f"{self.produced} produced when {got + 1} arrived")
                got += 1
                self.server_got = got
                self.poke()
            elif ch == "E":
                try:
                    await it.__anext__()
                except StopAsyncIteration:
                    pass
                else:
                    check(False, "request-invented", "")
                self.server_end = True
            else:
                # the previous response must have reached the caller
                if self.kind != "client":
                    await self.until(lambda n=sent: self.client_got >= n)
                yield rpc.mk_res("py", self.res(sent))
                sent += 1
        if self.c["end_error"]:
            raise rpc.mk_error(self.c["end_error"])

    async def bidi(self, request: Any, ctx: Any) -> Any:
        async for m in self._run(request, ctx):
            yield m

    async def server(self, request: Any, ctx: Any) -> Any:
        async def one() -> Any:
            yield request

        async for m in self._run(one(), ctx):
            yield m

    async def client(self, request: Any, ctx: Any) -> Any:
        got = None
        async for m in self._run(request, ctx):
            got = m
        return got

    unary = get = client

    async def on_message(self, i: int, _m: Any) -> None:
        self.client_got = i + 1
        self.poke()


def talk_test(c: dict, rec: Any) -> None:
    kind, word = c["word"]
    seen_headers: list = []

    async def go() -> Any:
        t = Talk(c)
        app = rpc.make_app("asgi", t, compressions=rpc.comps(["gzip", "br", "zstd"]), interceptors=icept(c["si"], "async"))
        loop = http.AsgiLoopback(app, req_plan=c["plan"], res_plan=c["rplan"])
        cl = rpc.aclient(
            loop, protocol=rpc.PROTOCOLS[c["protocol"]], codec=rpc.codec(c["codec"]),
            send_compression=rpc.comp(c["send"]) if c["send"] else None,
            accept_compression=rpc.comps(c["accept"]), interceptors=icept(c["ci"], "async"),
        )
        mi = rpc.method_info(kind)
        kw = {"timeout_ms": c["timeout"]} if c["timeout"] else {}
        r = rpc.Result()
        with ResponseMetadata() as md:
            try:
                if kind == "client":
                    r.raw.append(await cl.execute_client_stream(request=t.requests(), method=mi, **kw))
                else:
                    if kind == "server":
                        t.produced = 1
                        it = cl.execute_server_stream(request=rpc.mk_req("py", t.req(0)), method=mi, **kw)
                    else:
                        it = cl.execute_bidi_stream(request=t.requests(), method=mi, **kw)
                    async for m in it:
                        if not r.raw:
                            seen_headers.append(list(md.headers.getall("x-h")))
                        r.raw.append(m)
                        await t.on_message(len(r.raw) - 1, m)
            except Exception as e:  # noqa: BLE001
                r.error = e
        return t, r

    o = vclock.run(go, check_deadlock=False)
    where = f"{c['protocol']} {kind} {word} ci={c['ci']} si={c['si']} send={c['send']} accept={c['accept']}"
    check(not o.deadlock, "conversation-stalls", where)
    check(not o.leaked and not o.unhandled, "left-overs", lambda: f"{where}: {o.leaked} {o.unhandled}")
    t, r = o.value
    check(o.elapsed == 0, "time-passed", lambda: f"{where}: {o.elapsed}")
    n = word.count("r")
    got = [msgs.norm(m) for m in r.raw]
    if c["end_error"] is None:
        check(r.error is None, "conversation-fails", lambda: f"{where}: {r.error!r}")
        check(got == [msgs.nres(t.res(i)) for i in range(n)], "responses-differ", where)
    else:
        check(r.error is not None and rpc.observed_error(r.error).code == c["end_error"]["code"], "error-differs", lambda: f"{where}: {r.error!r}")
        check(kind == "client" or got == [msgs.nres(t.res(i)) for i in range(n)], "responses-differ", where)
    for h in seen_headers:
        check(h == ["v"], "headers-late", lambda: f"{where}: {h} with the first response")
    rec.label(f"{c['protocol']}/{kind}")
    rec.label(f"interceptors {len(c['ci']) + len(c['si'])}")
    if len(word) > 2 and ("cr" in word or "rc" in word or "rr" in word or "cc" in word):
        rec.nontrivial(where)


# -- delivery as soon as the bytes are there ------------------------------------------------------


def feed_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            **BASE,
            "side": st.sampled_from(["async-client", "sync-client", "wsgi", "asgi"]),
            "kind": st.sampled_from(["server", "bidi"]),
            "ress": st.lists(ANY_RES, min_size=1, max_size=5),
            "reqs": st.lists(ANY_MSG, min_size=1, max_size=5),
            "times": st.sampled_from([*[1] * 9, 8, 30]),
            "enc": ALGO,
        }
    )


def chunked(frames: list[bytes], tail: bytes, plan: list[int]) -> tuple[list[bytes], list[int]]:
    """Cuts the body; for each frame the index of the chunk in which it becomes complete."""
    body = b"".join(frames) + tail
    chunks = http.split(body, plan)
    ends, at, pos, done = [], 0, 0, 0
    for f in frames:
        at += len(f)
        while done < at:
            done += len(chunks[pos])
            pos += 1
        ends.append(pos - 1)
    return chunks, ends


def feed_test(c: dict, rec: Any) -> None:
    protocol, codec, side = c["protocol"], c["codec"], c["side"]
    server = side in ("wsgi", "asgi")
    dicts = (c["reqs"] if server else c["ress"]) * c["times"]
    payloads = [msgs.ref_encode(codec, msgs.g_req(d) if server else msgs.g_res(d)) for d in dicts]
    algo = c["enc"]
    frames = [wire.env(1, wire.compress(algo, p)) if algo else wire.env(0, p) for p in payloads]
    where = f"{side} {protocol} {c['kind']} enc={algo} plan={c['plan']}"
    pulled = [0]
    delivered: list[int] = []  # chunks pulled when message i was delivered
    if server:
        chunks, ends = chunked(frames, b"", c["plan"])

        class Svc(rpc.Script):
            async def bidi(self, request: Any, ctx: Any) -> Any:
                async for _ in request:
                    delivered.append(pulled[0])
                return
                yield

            def bidi_sync(self, request: Any, ctx: Any) -> Any:
                for _ in request:
                    delivered.append(pulled[0])
                return
                yield

        app = rpc.make_app(side, Svc(), interceptors=icept(c["si"], "async" if side == "asgi" else "sync"), compressions=rpc.comps(["gzip", "br", "zstd"]))
        h, _ = wire.build_request(protocol, False, codec, [b"{}" if codec == "json" else b""])
        h = [x for x in h if x[0] != wire.enc_headers(protocol, True)[0]]
        if algo:
            h.append((wire.enc_headers(protocol, True)[0], algo))

        def counted() -> Any:
            for x in chunks:
                pulled[0] += 1
                yield x

        if side == "wsgi":
            env = http.wsgi_environ("POST", rpc.path("bidi"), "", h, http.ChunkedInput(counted()))
            out = http.wsgi_call(app, env)
        else:
            src = counted()

            async def go() -> Any:
                out = http.HttpOut()
                rc = http.AsgiRecorder(out)

                async def receive() -> dict:
                    x = next(src, None)
                    return {"type": "http.request", "body": x or b"", "more_body": x is not None}

                async def send(m: dict) -> None:
                    rc.feed(m)

                await app(http.asgi_scope("POST", rpc.path("bidi"), b"", h), receive, send)
                return out

            out = vclock.run(go).value
        check(out.status == 200 and out.complete, "call-failed", lambda: f"{where}: {out.status} {out.exc!r}")
    else:
        end, tr = wire.end_of_stream(protocol, None, [])
        chunks, ends = chunked(frames, end, c["rplan"])
        hs = [("content-type", wire.content_type(protocol, codec, True))]
        if algo:
            hs.append((wire.enc_headers(protocol, True)[0], algo))
        kw = dict(
            protocol=rpc.PROTOCOLS[protocol], codec=rpc.codec(codec), send_compression=None,
            accept_compression=rpc.comps(["gzip", "br", "zstd"]),
        )
        reqs = [rpc.mk_req("py", {"text": "q"})]
        trailers = pyqwest.Headers(tr or [])
        if side == "async-client":

            class T:
                async def execute(self, request: Any) -> Any:
                    async def gen() -> Any:
                        for x in chunks:
                            pulled[0] += 1
                            yield x

                    return pyqwest.Response(status=200, headers=pyqwest.Headers(hs), content=gen(), trailers=trailers)

            r = vclock.run(
                lambda: rpc.acall(
                    rpc.aclient(T(), interceptors=icept(c["ci"], "async"), **kw), c["kind"], reqs,
                    on_message=lambda i, m: delivered.append(pulled[0]), timeout_ms=c["timeout"],
                )
            ).value
        else:

            class S:
                def execute_sync(self, request: Any) -> Any:
                    def gen() -> Any:
                        for x in chunks:
                            pulled[0] += 1
                            yield x

                    return pyqwest.SyncResponse(status=200, headers=pyqwest.Headers(hs), content=gen(), trailers=trailers)

            with vclock.frozen():
                r = rpc.scall(
                    rpc.sclient(S(), interceptors=icept(c["ci"], "sync"), **kw), c["kind"], reqs,
                    on_message=lambda i, m: delivered.append(pulled[0]), timeout_ms=c["timeout"],
                )
        check(r.error is None, "call-failed", lambda: f"{where}: {r.error!r}")
    check(len(delivered) == len(frames), "messages-missing", lambda: f"{where}: {len(delivered)} of {len(frames)}")
    for i, (n, e) in enumerate(zip(delivered, ends, strict=True)):
        check(n == e + 1, "delivered-late", lambda: f"{where}: message {i} complete in chunk {e}, delivered after {n} of {len(chunks)} chunks")
    rec.label(f"{side}/{protocol}")
    if len(frames) > 1 and len(chunks) > 1:
        rec.nontrivial(f"{where} {len(frames)} messages in {len(chunks)} chunks")


# -- nothing is pulled or produced ahead of need -----------------------------------------------------


def lazy_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            **BASE,
            "side": st.sampled_from(["async-client", "sync-client", "wsgi", "asgi"]),
            "kind": st.sampled_from(["client", "bidi"]),
            "n": mostly(9, st.integers(1, 6), st.sampled_from([20, 70, 150])),
            "stop": mostly(9, st.integers(0, 6), st.sampled_from([20, 70])),
            "msg": ANY_MSG,
            "res": ANY_RES,
        }
    )


def lazy_test(c: dict, rec: Any) -> None:
    protocol, codec, side, n = c["protocol"], c["codec"], c["side"], c["n"]
    where = f"{side} {protocol} {c['kind']} {n} messages"
    log: list[tuple[int, int]] = []
    if side in ("async-client", "sync-client"):
        # the transport pulls `stop` chunks, then answers
        produced = [0]
        payload = msgs.ref_encode(codec, msgs.g_res(c["res"]))
        end, tr = wire.end_of_stream(protocol, None, [])
        hs = [("content-type", wire.content_type(protocol, codec, True))]
        stop = c["stop"]
        kw = dict(
            protocol=rpc.PROTOCOLS[protocol], codec=rpc.codec(codec),
            send_compression=rpc.comp(c["send"]) if c["send"] else None,
        )
        m = rpc.mk_req("py", c["msg"])
        buf = bytearray()

        def taken(chunk: bytes) -> None:
            buf.extend(chunk)
            i = k = 0
            while len(buf) - i >= 5 and len(buf) - i >= 5 + int.from_bytes(buf[i + 1 : i + 5], "big"):
                i += 5 + int.from_bytes(buf[i + 1 : i + 5], "big")
                k += 1
            # a message of which the transport has a part was needed
            log.append((k + (i < len(buf)), produced[0]))

        if side == "async-client":

            class T:
                async def execute(self, request: Any) -> Any:
                    log.append((0, produced[0] - 1))
                    it = request.content.__aiter__()
                    for _ in range(stop):
                        try:
                            taken(await it.__anext__())
                        except StopAsyncIteration:
                            break
                    await asyncio.sleep(1)

                    async def gen() -> Any:
                        yield wire.env(0, payload) + end

                    return pyqwest.Response(status=200, headers=pyqwest.Headers(hs), content=gen(), trailers=pyqwest.Headers(tr or []))

            async def reqs() -> Any:
                for _ in range(n):
                    produced[0] += 1
                    yield m

            async def go() -> Any:
                cl = rpc.aclient(T(), interceptors=icept(c["ci"], "async"), **kw)
                mi = rpc.method_info(c["kind"])
                if c["kind"] == "client":
                    return [await cl.execute_client_stream(request=reqs(), method=mi, timeout_ms=c["timeout"])]
                return [x async for x in cl.execute_bidi_stream(request=reqs(), method=mi, timeout_ms=c["timeout"])]

            got = vclock.run(go).value
        else:

            class S:
                def execute_sync(self, request: Any) -> Any:
                    log.append((0, produced[0] - 1))
                    it = iter(request.content)
                    for _ in range(stop):
                        x = next(it, None)
                        if x is None:
                            break
                        taken(x)

                    def gen() -> Any:
                        yield wire.env(0, payload) + end

                    return pyqwest.SyncResponse(status=200, headers=pyqwest.Headers(hs), content=gen(), trailers=pyqwest.Headers(tr or []))

            def sreqs() -> Any:
                for _ in range(n):
                    produced[0] += 1
                    yield m

            cl = rpc.sclient(S(), interceptors=icept(c["ci"], "sync"), **kw)
            mi = rpc.method_info(c["kind"])
            with vclock.frozen():
                if c["kind"] == "client":
                    got = [cl.execute_client_stream(request=sreqs(), method=mi, timeout_ms=c["timeout"])]
                else:
                    got = list(cl.execute_bidi_stream(request=sreqs(), method=mi, timeout_ms=c["timeout"]))
        check([msgs.norm(x) for x in got] == [msgs.nres(c["res"])], "response-differs", where)
        for k, p in log:
            check(p <= k + 0 if k else p <= 1, "requests-pulled-early", lambda: f"{where}: {p} produced, {k} taken: {log}")
        log.append((min(stop, n), produced[0]))
        check(produced[0] <= max(1, min(stop, n)), "requests-pulled-unasked", lambda: f"{where}: {log}")
    else:
        # the handler produces response i only when response i-1 has left the application
        class Svc(rpc.Script):
            made = 0

            async def server(self, request: Any, ctx: Any) -> Any:
                for _ in range(n):
                    self.made += 1
                    yield rpc.mk_res("py", c["res"])

            def server_sync(self, request: Any, ctx: Any) -> Any:
                for _ in range(n):
                    self.made += 1
                    yield rpc.mk_res("py", c["res"])

        svc = Svc()
        app = rpc.make_app(side, svc, interceptors=icept(c["si"], "async" if side == "asgi" else "sync"))
        h, body = wire.build_request(protocol, False, codec, [b"{}" if codec == "json" else b""])
        out = http.HttpOut()
        count = 0

        def frames() -> int:
            i = k = 0
            b = bytes(out.body)
            while len(b) - i >= 5 and len(b) - i >= 5 + int.from_bytes(b[i + 1 : i + 5], "big"):
                k += 1 if not b[i] & 0x82 else 0
                i += 5 + int.from_bytes(b[i + 1 : i + 5], "big")
            return k

        if side == "wsgi":
            env = http.wsgi_environ("POST", rpc.path("server"), "", h, http.ChunkedInput([body]))
            resp = http.WsgiResponse(app, env, out)
            while resp.next_chunk() is not None:
                count += 1
                log.append((frames(), svc.made))
            resp.close()
        else:

            async def go2() -> None:
                rc = http.AsgiRecorder(out)
                ev = http.body_events([body])

                async def receive() -> dict:
                    if ev:
                        return ev.pop(0)
                    await asyncio.get_running_loop().create_future()
                    raise AssertionError

                async def send(msg: dict) -> None:
                    rc.feed(msg)
                    before = svc.made
                    await asyncio.sleep(1)  # back-pressure
                    check(svc.made == before, "produced-during-send", where)
                    log.append((frames(), svc.made))

                await app(http.asgi_scope("POST", rpc.path("server"), b"", h), receive, send)

            vclock.run(go2)
        check(out.status == 200 and frames() == n, "call-failed", lambda: f"{where}: {out.status} {frames()}")
        for k, p in log:
            check(p <= max(k, 1), "responses-produced-early", lambda: f"{where}: {p} produced, {k} sent: {log}")
    rec.label(f"{side}/{protocol}")
    if n > 1:
        rec.nontrivial(f"{where} {log[:4]}")


# -- sync conversations on one thread ------------------------------------------------------------------


def sync_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            **BASE,
            "word": WORD,
            "reqs": st.lists(ANY_MSG, min_size=1, max_size=4),
            "ress": st.lists(ANY_RES, min_size=1, max_size=4),
        }
    )


def sync_test(c: dict, rec: Any) -> None:
    """Bidi over the in-process WSGI loopback: everything is pull-driven, so the order of events is exact."""
    word = c["word"]
    events: list[str] = []
    where = f"sync {c['protocol']} {word}"

    class Svc(rpc.Script):
        def bidi_sync(self, request: Any, ctx: Any) -> Any:
            it = iter(request)
            got = sent = 0
            for ch in word:
                if ch == "c":
                    events.append("want")
                    next(it)
                    events.append("got")
                    got += 1
                else:
                    events.append("make")
                    yield rpc.mk_res("py", c["ress"][sent % len(c["ress"])])
                    sent += 1
            events.append("want")
            check(next(it, None) is None, "request-invented", where)

    def reqs() -> Any:
        for i in range(word.count("c")):
            events.append("produce")
            yield rpc.mk_req("py", c["reqs"][i % len(c["reqs"])])

    app = rpc.make_app("wsgi", Svc(), compressions=rpc.comps(["gzip", "br", "zstd"]), interceptors=icept(c["si"], "sync"))
    t = http.WsgiLoopback(app, req_plan=c["plan"], res_plan=c["rplan"])
    cl = rpc.sclient(
        t, protocol=rpc.PROTOCOLS[c["protocol"]], codec=rpc.codec(c["codec"]),
        send_compression=rpc.comp(c["send"]) if c["send"] else None,
        accept_compression=rpc.comps(c["accept"]), interceptors=icept(c["ci"], "sync"),
    )
    got = []
    with vclock.frozen(), ResponseMetadata():
        for m in cl.execute_bidi_stream(request=reqs(), method=rpc.method_info("bidi"), timeout_ms=c["timeout"], headers=Headers()):
            events.append("deliver")
            got.append(msgs.norm(m))
    check(got == [msgs.nres(c["ress"][i % len(c["ress"])]) for i in range(word.count("r"))], "responses-differ", where)
    want: list[str] = []
    for ch in word:
        want += ["want", "produce", "got"] if ch == "c" else ["make", "deliver"]
    want.append("want")
    check(events == want, "order-differs", lambda: f"{where}: {events} want {want}")
    rec.label(c["protocol"])
    if len(set(word)) == 2:
        rec.nontrivial(where)


PARTS = [
    Part("talk", talk_strategy, talk_test, quick=3000, shards=4),
    Part("feed", feed_strategy, feed_test, quick=3000, shards=2),
    Part("lazy", lazy_strategy, lazy_test, quick=2000, shards=2),
    Part("sync", sync_strategy, sync_test, quick=2000, shards=2),
    Part("sockets", interop.talk_strategy, interop.talk_test, quick=400, shards=2),
]
