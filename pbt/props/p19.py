"""P19: concurrent calls never affect each other.

Metamorphic: the outcome of every call among concurrent ones equals its outcome when it runs alone, on a
fresh client and a fresh application."""

from __future__ import annotations

import asyncio
import contextvars
import sys
import threading
from typing import Any

from hypothesis import strategies as st

from connectrpc.client import ResponseMetadata
from connectrpc.request import Headers

from .. import http, interop, msgs, rpc, vclock
from ..core import Part, check

PID = "P19"
LEVEL = "exploration"
RULE = "non-trivial: at least two calls were in progress at the same time"
ASSUMPTIONS = [
    "asynchronous calls run as tasks, or as streams that one task reads alternately",
    "the thread part samples the interleavings that the operating system gives",
]
QUICK_BUDGET = 110.0
ALGO = st.sampled_from([None, "gzip", "br", "zstd"])
HDR = st.lists(st.tuples(st.sampled_from(["x-a", "x-b", "x-c"]), rpc.HEADER_VALUE), max_size=2)
DELAY = st.sampled_from([0, 0, 0.125, 0.25, 0.5])


def calls(kinds: list[str], big: int, n: int, timeouts: bool) -> st.SearchStrategy:
    return st.lists(
        st.fixed_dictionaries(
            {
                "client": st.integers(0, 2),
                "kind": st.sampled_from(kinds),
                "reqs": st.lists(msgs.reqs(big), min_size=1, max_size=3),
                "ress": st.lists(msgs.ress(big), max_size=3),
                "first": msgs.ress(big),
                "req_headers": HDR,
                "form": st.sampled_from(["headers", "dict", "none", "none", "shared"]),
                "res_headers": HDR,
                "res_trailers": HDR,
                "late": HDR,
                "error": st.one_of(st.none(), st.none(), st.none(), rpc.ERRORS),
                "interleave": st.one_of(st.none(), st.lists(st.integers(0, 2), min_size=1, max_size=2)),
                "delays": st.lists(DELAY, min_size=1, max_size=3),
                "gates": st.lists(DELAY, min_size=1, max_size=3),
                "start": DELAY,
                "timeout": st.sampled_from([None, None, None, 187, 1111, 60_000] if timeouts else [None, None, 60_000]),
                "get": st.booleans(),
            }
        ),
        min_size=2,
        max_size=n,
    )


def strategy(kinds: list[str], *, big: int = 3000, n: int = 5, timeouts: bool = False) -> Any:
    def make() -> st.SearchStrategy:
        return st.fixed_dictionaries(
            {
                "rt": st.sampled_from(["py", "py", "google"]),
                "clients": st.lists(
                    st.fixed_dictionaries(
                        {
                            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
                            "codec": st.sampled_from(["proto", "json"]),
                            "send": ALGO,
                            "accept": st.sampled_from([["gzip"], ["zstd"], ["br"], ["gzip", "zstd", "br"], []]),
                        }
                    ),
                    min_size=1,
                    max_size=3,
                ),
                "calls": calls(kinds, big, n, timeouts),
                "plan": rpc.PLAN,
                "rplan": rpc.PLAN,
                "icepts": st.sampled_from([0, 1, 2]),
                "order": st.lists(st.integers(0, 4), max_size=40),
            }
        )

    return make


CALL: contextvars.ContextVar[str] = contextvars.ContextVar("call")


class Caller:
    """Client interceptor that labels a call for the service."""

    async def on_start(self, ctx: Any) -> None:
        ctx.request_headers["x-call"] = CALL.get()

    async def on_end(self, token: Any, ctx: Any, error: Any) -> None:
        pass


class CallerSync:
    def on_start_sync(self, ctx: Any) -> None:
        ctx.request_headers["x-call"] = CALL.get()

    def on_end_sync(self, token: Any, ctx: Any, error: Any) -> None:
        pass


class Tokens:
    """Metadata interceptor that must get back its own token, whatever else is in progress."""

    def __init__(self, bad: list) -> None:
        self.bad = bad

    def _start(self, ctx: Any) -> Any:
        return [ctx.request_headers.get("x-call")]

    def _end(self, token: Any, ctx: Any) -> None:
        if token != [ctx.request_headers.get("x-call")]:
            self.bad.append((token, ctx.request_headers.get("x-call")))


class TokensAsync(Tokens):
    async def on_start(self, ctx: Any) -> Any:
        return self._start(ctx)

    async def on_end(self, token: Any, ctx: Any, error: Any) -> None:
        self._end(token, ctx)


class TokensSync(Tokens):
    def on_start_sync(self, ctx: Any) -> Any:
        return self._start(ctx)

    def on_end_sync(self, token: Any, ctx: Any, error: Any) -> None:
        self._end(token, ctx)


class World:
    def __init__(self, flavour: str, c: dict, which: list[int]) -> None:
        self.c, self.which = c, which
        self.scripts: dict[str, rpc.Script] = {}
        self.shared = Headers([("x-a", "shared"), ("x-s", "1"), ("x-s", "2")])
        delays: dict[str, list] = {}
        for i in which:
            call = c["calls"][i]
            ress = [call["first"]] if call["kind"] not in ("server", "bidi") else call["ress"]
            self.scripts[str(i)] = rpc.Script(
                rt=c["rt"], ress=ress, res_headers=call["res_headers"], res_trailers=call["res_trailers"],
                late_trailers=call["late"], error=call["error"], interleave=call["interleave"],
            )
            delays[str(i)] = call["delays"]
        algos = {n: rpc.comp(n) for n in ("gzip", "br", "zstd")}  # shared instances
        self.bad: list = []
        mk = TokensAsync if flavour == "async" else TokensSync
        ic = [mk(self.bad) for _ in range(c["icepts"])]
        self.app = rpc.make_app(
            "asgi" if flavour == "async" else "wsgi", rpc.Router(self.scripts, delays), rt=c["rt"],
            compressions=list(algos.values()), interceptors=ic,
        )
        codecs = {n: rpc.codec(n, c["rt"]) for n in ("proto", "json")}
        loop = http.AsgiLoopback if flavour == "async" else http.WsgiLoopback
        t = loop(self.app, req_plan=c["plan"], res_plan=c["rplan"])
        client = rpc.aclient if flavour == "async" else rpc.sclient
        self.clients = [
            client(
                t, protocol=rpc.PROTOCOLS[k["protocol"]], codec=codecs[k["codec"]],
                send_compression=algos[k["send"]] if k["send"] else None,
                accept_compression=[algos[n] for n in k["accept"]],
                interceptors=[Caller() if flavour == "async" else CallerSync(), *ic],
            )
            for k in c["clients"]
        ]

    def args(self, i: int) -> tuple[Any, str, list, dict]:
        call = self.c["calls"][i]
        k = call["client"] % len(self.clients)
        kw: dict = {}
        CALL.set(str(i))
        if call["form"] == "headers":
            kw["headers"] = Headers(call["req_headers"])
        elif call["form"] == "dict":
            kw["headers"] = dict(call["req_headers"])
        elif call["form"] == "shared":
            kw["headers"] = self.shared
        if call["timeout"]:
            kw["timeout_ms"] = call["timeout"]
        if call["kind"] == "get":
            kw["use_get"] = call["get"] and self.c["clients"][k]["protocol"] == "connect"
        n = None if call["kind"] in ("client", "bidi") else 1
        return self.clients[k], call["kind"], [rpc.mk_req(self.c["rt"], d) for d in call["reqs"][:n]], {**kw, "rt": self.c["rt"]}

    def outcome(self, i: int, r: rpc.Result, md: Any) -> dict:
        e = None
        if r.error is not None:
            x = rpc.observed_error(r.error)
            e = (x.code, x.message, x.details)
        return {
            "messages": r.messages,
            "error": e,
            "headers": list(md.headers.allitems()),
            "trailers": list(md.trailers.allitems()),
            "seen": [
                (s.kind, s.reqs, s.ended, s.http_method, s.method.name, sorted(s.headers), repr(s.req_error), s.closed)
                for s in self.scripts[str(i)].seen
            ],
        }


async def run_async(c: dict, which: list[int], alone: bool) -> dict[int, dict]:
    w = World("async", c, which)
    out: dict[int, dict] = {}

    async def one(i: int) -> None:
        call = c["calls"][i]
        if not alone:
            await asyncio.sleep(call["start"])
        cl, kind, reqs, kw = w.args(i)

        async def gate(n: int) -> None:
            await asyncio.sleep(call["gates"][n % len(call["gates"])])

        with ResponseMetadata() as md:
            r = await rpc.acall(cl, kind, reqs, gate=gate, **kw)
        out[i] = w.outcome(i, r, md)

    await asyncio.gather(*(one(i) for i in which))
    await asyncio.sleep(30)  # handlers of calls that timed out
    for i in which:
        fresh = w.scripts[str(i)].seen
        out[i]["seen"] = [
            (s.kind, s.reqs, s.ended, s.http_method, s.method.name, sorted(s.headers), repr(s.req_error), s.closed) for s in fresh
        ]
    check(not w.bad, "token-of-another-call", lambda: str(w.bad))
    return out


def compare(c: dict, got: dict, solo: dict, where: str) -> None:
    for i, want in solo.items():
        for k in want:
            check(got[i][k] == want[k], f"{k}-differ", lambda: f"{where} call {i} {c['calls'][i]}:\n got {got[i][k]}\nalone {want[k]}")


def async_test(c: dict, rec: Any) -> None:
    n = len(c["calls"])
    solo = {}
    spans = []
    for i in range(n):
        o = vclock.run(lambda i=i: run_async(c, [i], True))
        solo.update(o.value)
        spans.append((c["calls"][i]["start"], c["calls"][i]["start"] + o.elapsed - 30))
    o = vclock.run(lambda: run_async(c, list(range(n)), False))
    check(not o.leaked and not o.unhandled, "left-overs", lambda: f"{o.leaked} {o.unhandled}")
    compare(c, o.value, solo, "tasks")
    label(c, rec)
    if any(a[0] <= b[1] and b[0] <= a[1] for x, a in enumerate(spans) for b in spans[x + 1 :]):
        rec.nontrivial("+".join(sorted(k["kind"] for k in c["calls"])))


def label(c: dict, rec: Any) -> None:
    for call in c["calls"]:
        rec.label(f"{c['clients'][call['client'] % len(c['clients'])]['protocol']}/{call['kind']}")
    rec.label(f"{len(c['clients'])} clients")


# -- one task or thread that reads several streams alternately ---------------------------------------------


async def alternate_async(c: dict) -> dict[int, dict]:
    n = len(c["calls"])
    w = World("async", c, list(range(n)))
    res = {i: rpc.Result() for i in range(n)}
    its: dict[int, Any] = {}
    live = list(range(n))
    k = 0

    async def stream(reqs: list) -> Any:
        for q in reqs:
            yield q

    while live:
        i = live[c["order"][k % len(c["order"])] % len(live)] if c["order"] else live[0]
        k += 1
        CALL.set(str(i))
        if i not in its:
            cl, kind, reqs, kw = w.args(i)
            rt = kw.pop("rt")
            mi = rpc.method_info(kind, rt)
            if kind == "server":
                its[i] = cl.execute_server_stream(request=reqs[0], method=mi, **kw)
            else:
                its[i] = cl.execute_bidi_stream(request=stream(reqs), method=mi, **kw)
            its[i] = aiter(its[i])
            continue
        try:
            res[i].raw.append(await anext(its[i]))
        except StopAsyncIteration:
            live.remove(i)
        except Exception as e:  # noqa: BLE001
            res[i].error = e
            live.remove(i)
    out = {}
    for i in range(n):
        res[i].messages = [msgs.norm(m) for m in res[i].raw]
        out[i] = w.outcome(i, res[i], _NoMd)
    check(not w.bad, "token-of-another-call", lambda: str(w.bad))
    return out


class _Nothing:
    def allitems(self) -> list:
        return []


class _NoMd:
    headers = trailers = _Nothing()


def alternate_async_test(c: dict, rec: Any) -> None:
    solo = {}
    for i in range(len(c["calls"])):
        solo.update(vclock.run(lambda i=i: run_async(c, [i], True)).value)
    for o in solo.values():
        o["headers"] = o["trailers"] = []
    o = vclock.run(lambda: alternate_async(c))
    compare(c, o.value, solo, "alternating")
    label(c, rec)
    if len(set(c["order"])) > 1:
        rec.nontrivial(str(c["order"][:8]))


def run_sync(c: dict, which: list[int], order: list[int] | None) -> dict[int, dict]:
    """Without an order the calls run one after the other."""
    w = World("sync", c, which)
    out: dict[int, dict] = {}

    def one(i: int) -> Any:
        cl, kind, reqs, kw = w.args(i)
        rt = kw.pop("rt")
        r = rpc.Result()
        with ResponseMetadata() as md:
            if kind in ("server", "bidi"):
                mi = rpc.method_info(kind, rt)
                try:
                    it = (
                        cl.execute_server_stream(request=reqs[0], method=mi, **kw)
                        if kind == "server"
                        else cl.execute_bidi_stream(request=pulled(reqs), method=mi, **kw)
                    )
                    for m in it:
                        r.raw.append(m)
                        yield
                except Exception as e:  # noqa: BLE001
                    r.error = e
                r.messages = [msgs.norm(m) for m in r.raw]
            else:
                r = rpc.scall(cl, kind, reqs, rt=rt, **kw)
        out[i] = w.outcome(i, r, md)

    def pulled(reqs: list) -> Any:
        yield from reqs

    tasks = {i: (contextvars.copy_context(), one(i)) for i in which}
    live = list(which)
    k = 0
    while live:
        i = live[order[k % len(order)] % len(live)] if order else live[0]
        k += 1
        ctx, g = tasks[i]
        try:
            ctx.run(next, g)
        except StopIteration:
            live.remove(i)
    check(not w.bad, "token-of-another-call", lambda: str(w.bad))
    return out


def alternate_sync_test(c: dict, rec: Any) -> None:
    solo = {}
    with vclock.frozen():
        for i in range(len(c["calls"])):
            solo.update(run_sync(c, [i], None))
        got = run_sync(c, list(range(len(c["calls"]))), c["order"])
    compare(c, got, solo, "alternating")
    label(c, rec)
    if len(set(c["order"])) > 1:
        rec.nontrivial(str(c["order"][:8]))


# -- threads ------------------------------------------------------------------------------------------------


def threads_test(c: dict, rec: Any) -> None:
    n = len(c["calls"])
    solo = {}
    for i in range(n):
        solo.update(run_sync(c, [i], None))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for rnd in range(3):
            w = World("sync", c, list(range(n)))
            out: dict[int, dict] = {}
            failed: list = []
            barrier = threading.Barrier(n)

            def one(i: int) -> None:
                try:
                    cl, kind, reqs, kw = w.args(i)
                    barrier.wait()
                    with ResponseMetadata() as md:
                        r = rpc.scall(cl, kind, reqs, **kw)
                    out[i] = w.outcome(i, r, md)
                except BaseException as e:  # noqa: BLE001
                    failed.append((i, repr(e)))

            ts = [threading.Thread(target=one, args=(i,)) for i in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            check(not failed, "thread-failed", lambda: f"round {rnd}: {failed}")
            compare(c, out, solo, f"threads round {rnd}")
            check(not w.bad, "token-of-another-call", lambda: str(w.bad))
    finally:
        sys.setswitchinterval(old)
    rec.evals(3)
    label(c, rec)
    rec.nontrivial("+".join(sorted(k["kind"] for k in c["calls"])))


ALL = rpc.KINDS
PARTS = [
    Part("tasks", strategy(ALL, timeouts=True), async_test, quick=2400, shards=4),
    Part("alternate-async", strategy(["server", "bidi"], n=4), alternate_async_test, quick=1000, shards=2),
    Part("alternate-sync", strategy(ALL, n=4), alternate_sync_test, quick=2000, shards=2),
    Part("threads", strategy(ALL, big=60_000, n=5), threads_test, quick=500, shards=2),
    Part("sockets", interop.concurrent_strategy, interop.concurrent_test, quick=300, shards=2),
    Part("many", interop.many_strategy, interop.many_test, quick=40, shards=2),
]
