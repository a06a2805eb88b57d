"""P15: deadlines are propagated faithfully and enforced."""

from __future__ import annotations

import asyncio
import contextlib
import re
from typing import Any

import pyqwest
from hypothesis import strategies as st

from connectrpc.client import ConnectClientSync

from .. import http, msgs, rpc, vclock, wire
from ..core import Part, check
from .p06 import UNIT_MS, check_timeout

PID = "P15"
LEVEL = "exploration"
RULE = (
    "non-trivial: a malformed or boundary timeout header, a handler that observes the remaining time "
    "after virtual time passed, or an exchange whose deadline expires before it is over"
)
ASSUMPTIONS = [
    "timeouts are at least 1 ms (0 means 'not set' in this library)",
    "a timeout that runs out in the same instant as an event of the exchange may be reported or not",
    "the sync client leaves expiry to the HTTP client; only the timeout handed to it and the check at the end of a stream are decided",
]
QUICK_BUDGET = 110.0

# -- timeout headers seen by the server ------------------------------------------------------

CONNECT_OK = st.one_of(
    st.integers(0, 10**10 - 1).map(str),
    st.integers(0, 5000).map(str),
    st.sampled_from(["0", "1", "9999999999", "0000000001", "0000000000", "007"]),
)
GRPC_OK = st.builds(
    lambda n, u: n + u,
    st.one_of(st.integers(0, 99_999_999).map(str), st.integers(0, 5000).map(str), st.sampled_from(["0", "99999999", "00000001", "010"])),
    st.sampled_from("HMSmun"),
)
JUNK = st.sampled_from(
    ["-5", "+5", "1_000", "1.5", "1e3", "abc", "0x10", "5 5", "١٢", "²", "-0", "NaN", "inf", "1,2", "--1", "5ms", "1;", "None"]
)


def connect_bad(s: str) -> bool:
    return not re.fullmatch(r"[0-9]{1,10}", s)


def grpc_bad(s: str) -> bool:
    return not re.fullmatch(r"[0-9]{1,8}[HMSmun]", s)


@st.composite
def mutated(draw: Any, base: st.SearchStrategy) -> str:
    s = draw(base)
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, len(s)))
        c = draw(st.sampled_from(list("0123456789+-_.,eEHMSmunhs٣ ")))
        op = draw(st.sampled_from(["insert", "replace", "delete", "dup"]))
        if op == "insert":
            s = s[:i] + c + s[i:]
        elif op == "replace":
            s = s[:i] + c + s[i + 1 :]
        elif op == "delete":
            s = s[:i] + s[i + 1 :]
        else:
            s = s + s
    return s.strip() or "x"


def headers_strategy() -> st.SearchStrategy:
    def build(protocol: str) -> st.SearchStrategy:
        ok = CONNECT_OK if protocol == "connect" else GRPC_OK
        bad = st.one_of(
            JUNK, mutated(ok), mutated(ok),
            st.integers(10**8, 10**14).map(str),
            st.builds(lambda n, u: n + u, JUNK, st.sampled_from("HMSmun")),
            st.builds(lambda n, u: f"{n}{u}", st.integers(10**8, 10**10), st.sampled_from("HMSmun")),
            st.builds(lambda n, u: f"{n}{u}", st.integers(0, 999), st.sampled_from(["s", "h", "ms", "us", "D", "N", "U", "", "Sm", "µ"])),
            st.sampled_from(list("HMSmun")),
        )
        return st.fixed_dictionaries(
            {
                "flavour": st.sampled_from(["asgi", "wsgi"]),
                "kind": st.sampled_from(rpc.KINDS),
                "protocol": st.just(protocol),
                "header": st.one_of(st.none(), ok, ok, bad, bad),
                "get": st.booleans(),
            }
        )

    return st.sampled_from(list(rpc.PROTOCOLS)).flatmap(build)


def headers_test(c: dict, rec) -> None:
    flavour, kind, protocol, header = c["flavour"], c["kind"], c["protocol"], c["header"]
    unary = kind in ("unary", "get")
    svc = rpc.Script(ress=[{"text": "r"}])
    app = rpc.make_app(flavour, svc)
    is_get = c["get"] and kind == "get" and protocol == "connect"
    hs = [] if header is None else [("connect-timeout-ms" if protocol == "connect" else "grpc-timeout", header)]
    if flavour == "asgi":
        # ASGI carries bytes; the header text is what a client would put there.
        hs = [(k, v.encode().decode("latin-1")) for k, v in hs]
    with vclock.frozen():
        if is_get:
            out = http.call(flavour, app, "GET", rpc.path(kind), hs, b"", query="connect=v1&encoding=json&message=%7B%7D")
        else:
            h, body = wire.build_request(protocol, unary, "json", [b"{}"], encoding="identity", accept=[], headers=hs)
            out = http.call(flavour, app, "POST", rpc.path(kind), h, body)
    bad = header is not None and (connect_bad(header) if protocol == "connect" else grpc_bad(header))
    rec.label(f"{protocol}:{'none' if header is None else 'bad' if bad else 'ok'}")
    check(out.exc is None, "application-raised", lambda: f"{header!r}: {out.exc!r}")
    check(out.complete, "no-response", header)
    if bad:
        rec.nontrivial("malformed")
        check(not svc.seen, "malformed-timeout-accepted", lambda: f"{header!r} seen as {svc.seen[0].timeout_ms}")
        if out.status == 200:
            r = wire.interpret_response(protocol, unary, "json", [], out.status, out.headers, out.body, out.trailers, True)
            check(r.error is not None, "malformed-timeout-success", repr(header))
            code = r.error.code
        else:
            code = wire.parse_error_json(wire.loads(out.body, "error-body")).code
        check(code in ("invalid_argument", "internal"), "malformed-timeout-code", f"{header!r}: {code}")
        return
    check(out.status == 200 and len(svc.seen) == 1, "valid-timeout-refused", lambda: f"{header!r}: {out.status} {out.body!r}")
    got = svc.seen[0].timeout_ms
    if header is None:
        check(got is None, "timeout-invented", got)
        return
    want = int(header) if protocol == "connect" else int(header[:-1]) * UNIT_MS[header[-1]]
    check(got is not None, "timeout-not-observed", header)
    # Sub-millisecond units may be rounded down to whole milliseconds.
    check(got <= want + 1e-6 * max(want, 1), "timeout-longer", f"{header}: {got}")
    check(got > want - 1 - 1e-6 * max(want, 1), "timeout-shorter", f"{header}: {got}")
    if protocol != "connect" or len(header) > 3:
        rec.nontrivial("boundary")


# -- propagation from client to handler ----------------------------------------------------

MS = st.one_of(st.integers(1, 200_000), st.sampled_from([1, 2, 999, 99_999_999, 100_000_000, 9_999_999_999, 10**12]))


def propagate_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "pair": st.sampled_from(["async", "sync"]),
            "kind": st.sampled_from(rpc.KINDS),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "use_get": st.booleans(),
            "timeout": st.one_of(st.none(), MS, MS),
            "default": st.one_of(st.none(), MS),
            "waits": st.lists(st.integers(0, 4000), min_size=1, max_size=4),
            "before": st.sampled_from([0, 0, 5, 1500]),
        }
    )


class _Delay:
    """Client interceptor that lets time pass before the call is made."""

    def __init__(self, ms: int) -> None:
        self.ms = ms

    async def on_start(self, ctx: Any) -> None:
        await asyncio.sleep(self.ms / 1000)

    async def on_end(self, token: Any, ctx: Any, error: Any) -> None:
        pass

    def on_start_sync(self, ctx: Any) -> None:
        vclock.advance(self.ms / 1000)

    def on_end_sync(self, token: Any, ctx: Any, error: Any) -> None:
        pass


def propagate_test(c: dict, rec) -> None:
    kind, protocol = c["kind"], c["protocol"]
    timeout = c["timeout"] if c["timeout"] is not None else c["default"]
    waits = c["waits"]
    total = sum(waits)
    seen: list[tuple[float, float | None]] = []

    def look(ctx: Any) -> None:
        seen.append((vclock.CLOCK.now, ctx.timeout_ms))

    class Svc:
        async def unary(self, request: Any, ctx: Any) -> Any:
            for w in [0, *waits]:
                await asyncio.sleep(w / 1000)
                look(ctx)
            return rpc.mk_res("py", {})

        get = unary

        async def client(self, request: Any, ctx: Any) -> Any:
            async for _ in request:
                pass
            return await self.unary(None, ctx)

        async def server(self, request: Any, ctx: Any) -> Any:
            for w in [0, *waits]:
                await asyncio.sleep(w / 1000)
                look(ctx)
                yield rpc.mk_res("py", {})

        bidi = server

        def unary_sync(self, request: Any, ctx: Any) -> Any:
            for w in [0, *waits]:
                vclock.advance(w / 1000)
                look(ctx)
            return rpc.mk_res("py", {})

        get_sync = unary_sync

        def client_sync(self, request: Any, ctx: Any) -> Any:
            list(request)
            return self.unary_sync(None, ctx)

        def server_sync(self, request: Any, ctx: Any) -> Any:
            for w in [0, *waits]:
                vclock.advance(w / 1000)
                look(ctx)
                yield rpc.mk_res("py", {})

        bidi_sync = server_sync

    kw = dict(protocol=rpc.PROTOCOLS[protocol], timeout_ms=c["default"], send_compression=None,
              interceptors=[_Delay(c["before"])] if c["before"] else [])
    call = dict(use_get=c["use_get"] and kind == "get", timeout_ms=c["timeout"])
    reqs = [rpc.mk_req("py", {"text": "q"})]
    start: list[float] = []
    if c["pair"] == "async":
        t: Any = http.AsgiLoopback(rpc.make_app("asgi", Svc()))

        async def go() -> Any:
            start.append(vclock.CLOCK.now)
            return await rpc.acall(rpc.aclient(t, **kw), kind, reqs, **call)

        r = vclock.run(go).value
    else:
        t = http.WsgiLoopback(rpc.make_app("wsgi", Svc()))
        with vclock.frozen():
            start.append(vclock.CLOCK.now)
            r = rpc.scall(rpc.sclient(t, **kw), kind, reqs, **call)
    rec.label(f"{c['pair']}/{protocol}")
    if timeout is not None and c["before"] >= timeout - 2:
        # expires before it is even sent
        check(
            abs(c["before"] - timeout) <= 2 or getattr(r.error, "code", None) is rpc.Code.DEADLINE_EXCEEDED,
            "not-expired-before-sending", repr(r.error),
        )
        return
    check(len(t.requests) == 1, "request-count", len(t.requests))
    header = [v for k, v in t.requests[0].headers if k == ("connect-timeout-ms" if protocol == "connect" else "grpc-timeout")]
    check_timeout(protocol, header, timeout)
    check(seen, "handler-not-run", repr(r.error))
    if timeout is None:
        check(all(s[1] is None for s in seen), "timeout-invented", seen)
        check(r.error is None, "call-failed", repr(r.error))
        return
    first_at, first = seen[0]
    check(first is not None, "timeout-not-observed", seen)
    check(first <= timeout + 0.01, "remaining-longer-than-requested", f"{first} of {timeout}")
    limit = 9_999_999_999 if protocol == "connect" else 99_999_999 * 3_600_000
    least = min(timeout, limit)
    check(first >= least - (least * 1e-3 if protocol != "connect" else 0) - 0.01, "remaining-much-shorter", f"{first} of {timeout}")
    for at, rem in seen:
        # tolerance: the loop's timers have a small resolution
        check(rem is not None and abs((first - rem) - (at - first_at) * 1000) < 0.01 + 1e-6 * first, "remaining-does-not-follow-clock", seen)
    if c["pair"] == "async":
        if c["before"] + total < timeout - 2:
            check(r.error is None, "expired-early", repr(r.error))
        elif c["before"] + total > timeout + 2:
            check(r.error is not None and r.error.code is rpc.Code.DEADLINE_EXCEEDED, "not-expired", repr(r.error))
    elif c["before"] + total < timeout:
        check(r.error is None, "expired-early", repr(r.error))
    if total:
        rec.nontrivial("observed over time")


# -- expiry in the async client ----------------------------------------------------------------

D = st.one_of(st.just(0), st.just(0), st.integers(1, 400), st.sampled_from([100, 1000, 3000]))


def expiry_strategy() -> st.SearchStrategy:
    def build(kind: str) -> st.SearchStrategy:
        stream = kind in ("server", "bidi")
        return st.fixed_dictionaries(
            {
                "kind": st.just(kind),
                "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
                "timeout": st.one_of(st.none(), st.integers(1, 2000), st.integers(1, 2000)),
                "default": st.booleans(),
                "requests": st.lists(D, max_size=3) if kind in ("client", "bidi") else st.just([]),
                "headers": D,
                "chunks": st.lists(st.tuples(D, st.integers(0, 2)), max_size=4) if stream else st.lists(st.tuples(D, st.just(0)), max_size=3),
                "end": D,
                "consumer": st.lists(D, min_size=1, max_size=3) if stream else st.just([0]),
                "never": st.sampled_from([None, None, None, "request", "headers", "body"]),
                "stubborn": st.booleans(),
                # the time limits that the library brings for Python 3.10, or those of asyncio
                "limits": st.sampled_from(["asyncio", "asyncio", "3.10"]),
            }
        )

    return st.sampled_from(rpc.KINDS).flatmap(build)


@contextlib.contextmanager
def time_limits(which: str) -> Any:
    import connectrpc._client_async as module

    if which != "3.10" or not hasattr(module, "asyncio_timeout"):
        yield
        return
    try:
        from connectrpc._asyncio_timeout import timeout
    except ImportError:
        timeout = module.asyncio_timeout
    old, module.asyncio_timeout = module.asyncio_timeout, timeout
    try:
        yield
    finally:
        module.asyncio_timeout = old


def expiry_test(c: dict, rec) -> None:
    kind, protocol, T = c["kind"], c["protocol"], c["timeout"]
    unary = kind in ("unary", "get")
    stream_body = not (protocol == "connect" and unary)
    multi = kind in ("server", "bidi")
    never = c["never"] if T is not None else None
    if never == "request" and kind not in ("client", "bidi"):
        never = None
    INF = 10.0**9
    # The transport's schedule as (delay ms, bytes, messages completed).
    steps: list[tuple[float, bytes, int]] = []
    k = 0

    def msg(i: int) -> bytes:
        return wire.env(0, msgs.ref_encode("proto", msgs.g_res({"text": f"m{i}"})))

    payload = msgs.ref_encode("proto", msgs.g_res({"text": "m0"}))
    end, trailers = wire.end_of_stream(protocol, None, [])
    if multi:
        for d, n in c["chunks"]:
            steps.append((d, b"".join(msg(k + j) for j in range(n)), n))
            k += n
    else:
        whole = wire.env(0, payload) if stream_body else payload
        cuts = [len(whole) * (i + 1) // (len(c["chunks"]) + 1) for i in range(len(c["chunks"]))]
        prev = 0
        for (d, _), cut in zip(c["chunks"], cuts, strict=True):
            steps.append((d, whole[prev:cut], 0))
            prev = cut
        steps.append((0, whole[prev:], 1))
        k = 1
    steps.append((c["end"], end if stream_body else b"", 0))
    if never == "body":
        steps[-1] = (INF, steps[-1][1], 0)

    async def nap(ms: float) -> None:
        if c["stubborn"] and ms:
            try:
                await asyncio.sleep(ms / 1000)
            except asyncio.CancelledError:
                await asyncio.sleep(0)  # takes a few turns to stop
                await asyncio.sleep(0)
                raise
        elif ms:
            await asyncio.sleep(ms / 1000)

    class Transport:
        async def execute(self, request: Any) -> Any:
            if not isinstance(request.content, bytes):
                async for _ in request.content:
                    pass
            await nap(INF if never == "headers" else c["headers"])
            tr = pyqwest.Headers()

            async def gen() -> Any:
                for d, data, _n in steps:
                    await nap(d)
                    if data:
                        yield data
                for kk, v in trailers or ():
                    tr.add(kk, v)

            ct = wire.content_type(protocol, "proto", stream_body)
            return pyqwest.Response(status=200, headers=pyqwest.Headers([("content-type", ct)]), content=gen(), trailers=tr)

    delays = list(c["requests"])
    if never == "request":
        delays.append(INF)

    async def gate(i: int) -> None:
        await nap(delays[i])

    async def consume(i: int, _m: Any) -> None:
        d = c["consumer"][i % len(c["consumer"])]
        if d:
            await asyncio.sleep(d / 1000)

    times: list[float] = []
    kw = dict(protocol=rpc.PROTOCOLS[protocol], timeout_ms=T if c["default"] else None)
    reqs = [rpc.mk_req("py", {"text": "q"}) for _ in (delays if kind in ("client", "bidi") else [0])]

    async def go() -> Any:
        client = rpc.aclient(Transport(), **kw)
        t0 = vclock.CLOCK.now
        r = await rpc.acall(client, kind, reqs, gate=gate, on_message=consume, timeout_ms=None if c["default"] else T)
        times.append((vclock.CLOCK.now - t0) * 1000)
        # The caller goes on after the call: nothing may disturb it.
        await asyncio.sleep(5)
        return r

    with time_limits(c["limits"]):
        outcome = vclock.run(go)
    check(times, "caller-cancelled", "the calling task was cancelled instead of getting an error")
    r, elapsed = outcome.value, times[0]
    check(not outcome.leaked, "tasks-leaked", outcome.leaked)
    check(not outcome.unhandled, "unhandled", outcome.unhandled)
    if r.error is not None:
        rpc.observed_error(r.error)
    # -- reference timeline
    now = 0.0
    events: list[tuple[float, float]] = []  # blocking steps of the call: (begin, end)
    for d in delays:
        events.append((now, now + d))
        now += d
    d = INF if never == "headers" else c["headers"]
    events.append((now, now + d))
    now += d
    must = may = 0  # messages delivered before the deadline for sure / at most
    i = 0
    for d, _data, n in steps:
        events.append((now, now + d))
        now += d
        for _ in range(n):
            if T is None or now < T - 2:
                must += 1
            if T is None or now <= T + 2:
                may += 1
            now += c["consumer"][i % len(c["consumer"])] if multi else 0
            i += 1
    expires = T is not None and any(b > T + 2 for _a, b in events)
    forced = T is not None and any(b > T + 2 and b > a for a, b in events)
    rec.label(f"{protocol}/{kind}")
    rec.label("limits of " + c["limits"])
    rec.label("expires" if forced else "late" if T is not None and now > T else "in time")
    want_all = [("m%d" % j) for j in range(k)]
    got = [m.text for m in r.raw]
    check(got == want_all[: len(got)], "messages-differ", f"{got} of {want_all}")
    if forced:
        check(r.error is not None, "not-expired", lambda: f"{got} after {elapsed} ms, timeout {T}")
        check(r.error.code is rpc.Code.DEADLINE_EXCEEDED, "wrong-code", repr(r.error))
        a = next(a for a, b in events if b > T + 2 and b > a)
        check(elapsed <= max(a, T) + 2, "expired-late", f"{elapsed} ms, timeout {T}, blocked since {a}")
        check(elapsed >= T - 1, "expired-early", f"{elapsed} ms, timeout {T}")
        if multi:
            check(len(got) >= must, "message-lost", f"{got}, {must} were due")
        rec.nontrivial("expires " + protocol)
    elif T is None or (not expires and now < T - 2):
        check(r.error is None, "expired-early" if T is not None else "failed-without-timeout", repr(r.error))
        check(got == want_all, "messages-differ", f"{got} want {want_all}")
        check(abs(elapsed - now) < 2, "wrong-duration", f"{elapsed} want {now}")
    elif r.error is not None:
        check(r.error.code is rpc.Code.DEADLINE_EXCEEDED, "wrong-code", repr(r.error))
        check(elapsed >= T - 1, "expired-early", f"{elapsed} ms, timeout {T}")
        check(len(got) >= must or not multi, "message-lost", f"{got}, {must} were due")


# -- sync client --------------------------------------------------------------------------------


class _Spy:
    """HTTP client wrapper that records the timeouts it is given."""

    def __init__(self, inner: Any) -> None:
        self.inner, self.timeouts = inner, []

    def __getattr__(self, name: str) -> Any:
        f = getattr(self.inner, name)
        if name not in ("get", "post", "stream", "put", "delete", "patch", "execute"):
            return f

        def wrapped(*a: Any, **kw: Any) -> Any:
            self.timeouts.append(kw.get("timeout"))
            return f(*a, **kw)

        return wrapped


def sync_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(rpc.KINDS),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "use_get": st.booleans(),
            "timeout": st.one_of(st.none(), MS),
            "default": st.one_of(st.none(), MS),
            "before": st.sampled_from([0, 0, 3, 700]),
            "fail": st.sampled_from(["no", "no", "request", "body"]),
            "slow": st.sampled_from([0, 0, 1, 10]),
        }
    )


def sync_test(c: dict, rec) -> None:
    kind, protocol = c["kind"], c["protocol"]
    unary = kind in ("unary", "get")
    stream = not (protocol == "connect" and unary)
    timeout = c["timeout"] if c["timeout"] is not None else c["default"]
    payload = msgs.ref_encode("proto", msgs.g_res({"text": "m"}))
    end, trailers = wire.end_of_stream(protocol, None, [])
    slow = 0.0 if timeout is None else c["slow"] * timeout / 1000

    class Transport:
        def execute_sync(self, request: Any) -> Any:
            if not isinstance(request.content, bytes):
                for _ in request.content:
                    pass
            if c["fail"] == "request":
                raise TimeoutError("timed out")
            tr = pyqwest.Headers()

            def gen() -> Any:
                yield wire.env(0, payload) if stream else payload
                if c["fail"] == "body":
                    raise TimeoutError("timed out")
                vclock.advance(slow)
                if stream and end:
                    yield end
                for kk, v in trailers or ():
                    tr.add(kk, v)

            ct = wire.content_type(protocol, "proto", stream)
            return pyqwest.SyncResponse(status=200, headers=pyqwest.Headers([("content-type", ct)]), content=gen(), trailers=tr)

    spy = _Spy(pyqwest.SyncClient(Transport()))
    with vclock.frozen():
        client = ConnectClientSync(
            "http://localhost", http_client=spy, protocol=rpc.PROTOCOLS[protocol], timeout_ms=c["default"],
            interceptors=[_Delay(c["before"])] if c["before"] else [],
        )
        r = rpc.scall(client, kind, [rpc.mk_req("py", {})], use_get=c["use_get"] and kind == "get", timeout_ms=c["timeout"])
    if timeout is not None and c["before"] >= timeout - 2:
        check(
            abs(c["before"] - timeout) <= 2 or getattr(r.error, "code", None) is rpc.Code.DEADLINE_EXCEEDED,
            "not-expired-before-sending", repr(r.error),
        )
        rec.nontrivial("expired before sending")
        return
    check(len(spy.timeouts) == 1, "http-calls", spy.timeouts)
    t = spy.timeouts[0]
    if timeout is None:
        check(t is None, "timeout-invented", t)
    else:
        check(t is not None, "timeout-not-passed-on", timeout)
        want = (timeout - c["before"]) / 1000
        check(t <= timeout / 1000 + 1e-9, "http-timeout-longer", f"{t} for {timeout} ms")
        check(abs(t - want) <= 0.001 + 1e-9 * timeout or t >= want, "http-timeout-shorter", f"{t} want {want}")
        rec.nontrivial("sync timeout")
    if c["fail"] != "no":
        check(r.error is not None and r.error.code is rpc.Code.DEADLINE_EXCEEDED, "timeout-error-code", repr(r.error))
    elif stream and timeout is not None and slow * 1000 + c["before"] > timeout + 2:
        check(r.error is not None and r.error.code is rpc.Code.DEADLINE_EXCEEDED, "late-end-accepted", repr(r.error))
    elif timeout is None or slow * 1000 + c["before"] < timeout - 2:
        check(r.error is None and [m.text for m in r.raw] == ["m"], "call-failed", repr(r.error))
    rec.label(f"{protocol}/{kind}/{c['fail']}")


PARTS = [
    Part("headers", headers_strategy, headers_test, quick=5000, shards=2),
    Part("propagate", propagate_strategy, propagate_test, quick=4000, shards=2),
    Part("expiry", expiry_strategy, expiry_test, quick=5000, shards=3),
    Part("sync", sync_strategy, sync_test, quick=2000, shards=1),
]
