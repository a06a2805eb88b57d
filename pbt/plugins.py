"""Codecs and compressions supplied by the user that fail: every step at which the library calls
them, with every kind of exception."""

from __future__ import annotations

import asyncio
import zlib
from typing import Any

from hypothesis import strategies as st

from . import http, msgs, rpc, vclock
from .core import check

BLAME = {"invalid_argument", "unimplemented", "resource_exhausted", "out_of_range", "failed_precondition"}


class Odd(Exception):
    pass


EXC = {
    c.__name__: c
    for c in (
        ValueError, KeyError, TypeError, RuntimeError, LookupError, ZeroDivisionError, AssertionError, OSError, TimeoutError,
        EOFError, StopIteration, StopAsyncIteration, MemoryError, RecursionError, AttributeError, NotImplementedError,
        ConnectionError, BrokenPipeError, Exception, Odd, zlib.error,
    )
}


class Faulty:
    """Counts the calls of each operation and fails one of them."""

    def __init__(self, at: tuple[str, int] | None, exc: str, bare: bool) -> None:
        self.at, self.exc, self.bare = at, exc, bare
        self.count: dict[str, int] = {}
        self.fired = False

    def step(self, op: str) -> None:
        n = self.count.get(op, 0)
        self.count[op] = n + 1
        if self.at == (op, n):
            self.fired = True
            raise EXC[self.exc]() if self.bare else EXC[self.exc]("cannot")


class Codec:
    def __init__(self, f: Faulty) -> None:
        self.f, self.inner = f, rpc.codec("proto")

    def name(self) -> str:
        return "odd"

    def encode(self, message: Any) -> bytes:
        self.f.step("encode")
        return self.inner.encode(message)

    def decode(self, data: Any, message_class: Any) -> Any:
        self.f.step("decode")
        return self.inner.decode(data, message_class)


class Comp:
    def __init__(self, f: Faulty) -> None:
        self.f = f

    def name(self) -> str:
        return "odd"

    def compress(self, data: Any) -> bytes:
        self.f.step("compress")
        return zlib.compress(bytes(data))

    def decompress(self, data: Any) -> bytes:
        self.f.step("decompress")
        return zlib.decompress(bytes(data))


def strategy(side: str) -> Any:
    def build(kind: str) -> st.SearchStrategy:
        return st.fixed_dictionaries(
            {
                "side": st.just(side),
                "kind": st.just(kind),
                "pair": st.sampled_from(["async-asgi", "sync-wsgi", "async-wsgi", "sync-asgi"]),
                "protocol": st.sampled_from(["connect", "connect", *rpc.PROTOCOLS] if kind == "get" else list(rpc.PROTOCOLS)),
                "op": st.sampled_from(["decode", "decode", "decode", "encode", "decompress", "compress"]),
                "k": st.sampled_from([0, 0, 0, 1, 2]),
                "exc": st.sampled_from(list(EXC)),
                "bare": st.booleans(),
                "reqs": st.lists(msgs.reqs(200), min_size=1, max_size=3 if kind in ("client", "bidi") else 1),
                "ress": st.lists(msgs.ress(200), min_size=1, max_size=3 if kind in ("server", "bidi") else 1),
                "get": st.sampled_from([True, True, False]),
                "interleave": st.sampled_from([None, [1]]),
                "plan": rpc.PLAN,
            }
        )

    return lambda: st.sampled_from(rpc.KINDS).flatmap(build)


def test(c: dict, rec: Any) -> None:
    kind, proto, op, side = c["kind"], c["protocol"], c["op"], c["side"]
    caller, flavour = c["pair"].split("-")
    unary = kind in ("unary", "get") and proto == "connect"
    compressed = "compress" in op
    if compressed and unary and (side == "client" or op == "compress"):
        # the HTTP client inflates these responses, and it does not know the compression
        if not (side == "client" and op == "compress"):
            op, compressed = op.replace("decompress", "decode").replace("compress", "encode"), False
    f = {s: Faulty((op, c["k"]) if s == side else None, c["exc"], c["bare"]) for s in ("client", "server")}
    svc = rpc.Script(ress=c["ress"], interleave=c["interleave"])
    app = rpc.make_app(flavour, svc, codecs=[Codec(f["server"])], compressions=[Comp(f["server"])])
    kw: dict = dict(
        protocol=rpc.PROTOCOLS[proto], codec=Codec(f["client"]), send_compression=Comp(f["client"]) if compressed else None,
        accept_compression=[Comp(f["client"])] if compressed and not unary else [],
    )
    use_get = c["get"] and kind == "get" and proto == "connect"
    reqs = [rpc.mk_req("py", r) for r in c["reqs"]]
    plans = dict(res_plan=c["plan"])
    if caller == "async":
        t: Any = http.AsgiLoopback(app, **plans) if flavour == "asgi" else http.BufferedToWsgi(app, **plans)

        async def go() -> Any:
            return await rpc.acall(rpc.aclient(t, **kw), kind, reqs, use_get=use_get)

        o = vclock.run(go)
        check(not o.deadlock, "hangs", lambda: f"{c}")
        check(not o.leaked, "left-overs", lambda: f"{o.leaked}")
        r = o.value
    else:
        t = http.WsgiLoopback(app, **plans) if flavour == "wsgi" else http.BufferedToAsgi(app, **plans)
        r = rpc.scall(rpc.sclient(t, **kw), kind, reqs, use_get=use_get)
    where = f"{c['pair']} {proto} {kind} {side} {op} #{c['k']} raises {c['exc']}"
    want_reqs, want_ress = [msgs.nreq(x) for x in c["reqs"]], [msgs.nres(x) for x in c["ress"]]
    for s in svc.seen:
        check(s.reqs == want_reqs[: len(s.reqs)], "handler-got-other-messages", lambda: f"{where}: {s.reqs}")
    check(len(svc.seen) <= 1, "handler-ran-twice", where)
    check(r.messages == want_ress[: len(r.messages)], "caller-got-other-messages", lambda: f"{where}: {r.messages}")
    if not f[side].fired:
        check(r.error is None, "call-failed", lambda: f"{where} (not reached): {r.error!r}")
        check(len(r.messages) == len(want_ress), "messages-lost", where)
        rec.label("not-reached")
        return
    check(r.error is not None, "failure-looks-successful", lambda: f"{where}: {r.messages}")
    multi_in, multi_out = kind in ("client", "bidi"), kind in ("server", "bidi")
    k = c["k"]
    request = (side == "client") == (op in ("encode", "compress"))
    if request:
        for s in svc.seen:
            check(multi_in, "handler-ran-without-message", lambda: f"{where}: {s.reqs}")
            check(not s.ended, "handler-saw-clean-end", lambda: f"{where}: {s.reqs}")
            check(len(s.reqs) <= k, "handler-got-other-messages", lambda: f"{where}: {s.reqs}")
    else:
        # (failing at the end marker may abort the response, with what was not delivered yet)
        want = k if multi_out else 0
        check(len(r.messages) == want or (multi_out and k >= len(want_ress)), "earlier-messages-lost", lambda: f"{where}: {r.messages}")
    if not (side == "client" and request):
        e = rpc.observed_error(r.error)
        if side == "server" and request:
            check(e.code in BLAME, "error-does-not-blame-the-request", lambda: f"{where}: {e}")
    rec.label(f"{side}/{op}/{'request' if request else 'response'}")
    rec.nontrivial(where)
