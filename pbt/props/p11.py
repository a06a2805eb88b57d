"""P11: headers and trailers travel unchanged between caller and handler."""

from __future__ import annotations

import asyncio
import threading
from typing import Any

from hypothesis import strategies as st

from connectrpc.client import ResponseMetadata
from connectrpc.request import Headers

from .. import http, interop, msgs, rpc, vclock
from ..core import Part, check

PID = "P11"
LEVEL = "exploration"
RULE = (
    "non-trivial: a repeated name, a failing call, or (histories) at least two calls of which one is nested, "
    "concurrent, threaded, outside every block or wrapped around another"
)
ASSUMPTIONS = [
    "header names and values valid in HTTP, not owned by HTTP or the protocols",
    "WSGI servers join repeated request headers with commas and read '_' as '-'; compared accordingly",
    "streams are started and consumed in the same metadata block",
    "a block around several calls may keep metadata of the earlier ones",
]
QUICK_BUDGET = 100.0

FEW = st.sampled_from(["x-a", "x-b", "x-a", "x-b", "x-c", "x-c", "etag", "x-trailerish", "x-trailer-id", "trailers-a", "trailering", "custom-bin",
    # ordinary names that look like the ones protocols own
    "set-cookie", "x-content-type", "content-language", "x-content-encoding", "x-grpc-status", "x-grpc-timeout", "timeout-ms", "x-accept-encoding"])
MANY = st.lists(st.tuples(st.one_of(FEW, rpc.HEADER_NAME), rpc.HEADER_VALUE), max_size=6)
# values that survive joining are compared one by one; the rest is compared joined
CALL = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(rpc.KINDS),
        "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
        "get": st.booleans(),
        "req": MANY,
        "as_map": st.booleans(),
        # "trailer-x" is an ordinary header, except on unary Connect responses
        "res": st.lists(st.tuples(st.one_of(FEW, rpc.HEADER_NAME, st.sampled_from(["trailer-x", "trailer-a"])), rpc.HEADER_VALUE), max_size=6),
        "tr": st.lists(st.tuples(st.one_of(FEW, rpc.HEADER_NAME, st.sampled_from(["trailer-id", "trailer"])), rpc.HEADER_VALUE), max_size=6),
        "late": st.lists(st.tuples(FEW, rpc.HEADER_VALUE), max_size=3),
        "error": st.one_of(st.none(), st.none(), rpc.ERRORS),
        "n": st.integers(0, 3),
        "delays": st.lists(st.integers(0, 3).map(float), min_size=1, max_size=3),
    }
)


def tag(cid: int, hs: list) -> list:
    return [(k, f"c{cid}={v}") for k, v in hs]


def group(hs: list, *, wsgi: bool = False) -> dict[str, list[str]]:
    d: dict[str, list[str]] = {}
    for k, v in hs:
        d.setdefault(k.lower().replace("_", "-") if wsgi else k.lower(), []).append(v)
    return {k: [",".join(v)] for k, v in d.items()} if wsgi else d


class Inside(list):
    """The calls made inside a block, in order of completion; `par`: some of them overlapped."""

    par = False


class World:
    """One application and one client per protocol, used for all calls of a case."""

    def __init__(self, c: dict) -> None:
        self.flavour, self.server = c["pair"].split("-")
        self.scripts: dict[str, rpc.Script] = {}
        self.delays: dict[str, list[float]] = {}
        self.app = rpc.make_app(self.server, rpc.Router(self.scripts, self.delays))
        kw = dict(res_plan=c["plan"])
        if self.flavour == "async":
            self.t = http.AsgiLoopback(self.app, **kw) if self.server == "asgi" else http.BufferedToWsgi(self.app, **kw)
        else:
            self.t = http.WsgiLoopback(self.app, **kw) if self.server == "wsgi" else http.BufferedToAsgi(self.app, **kw)
        mk = rpc.aclient if self.flavour == "async" else rpc.sclient
        self.clients = {
            p: mk(self.t, protocol=rpc.PROTOCOLS[p], codec=rpc.codec(c["codec"]), send_compression=None)
            for p in rpc.PROTOCOLS
        }
        self.calls: list[dict] = []

    def start(self, call: dict) -> tuple[int, dict]:
        cid = len(self.calls)
        self.calls.append(call)
        if call["protocol"] == "connect" and call["kind"] in ("unary", "get"):
            call["res"] = [(k, v) for k, v in call["res"] if not k.startswith("trailer-")]
        single = call["kind"] not in ("server", "bidi")
        self.scripts[str(cid)] = rpc.Script(
            ress=[{"num": i} for i in range(1 if single else call["n"])],
            res_headers=tag(cid, call["res"]), res_trailers=tag(cid, call["tr"]), late_trailers=tag(cid, call["late"]),
            error=call["error"],
        )
        self.delays[str(cid)] = call["delays"]
        req = [("x-call", str(cid)), *tag(cid, call["req"])]
        if call["as_map"]:
            req = list({k.lower(): (k, v) for k, v in req}.values())
            h: Any = dict(req)
        else:
            h = Headers(req)
        call["sent"] = req
        kw: dict = {"headers": h}
        if call["kind"] == "get":
            kw["use_get"] = call["get"] and call["protocol"] == "connect"
        return cid, kw

    def finished(self, cid: int, r: rpc.Result) -> None:
        """The handler's view, and the outcome."""
        call, s = self.calls[cid], self.scripts[str(cid)]
        check(len(s.seen) == 1, "handler-invocations", lambda: f"{call}: {len(s.seen)} {r.error!r}")
        if call["error"] is None:
            check(r.error is None, "call-failed", lambda: f"{call}: {r.error!r}")
        else:
            check(r.error is not None, "error-lost", lambda: f"{call}")
        wsgi = self.server == "wsgi"
        want, got = group(call["sent"], wsgi=wsgi), group(s.seen[0].headers)
        for k, v in want.items():
            check(got.get(k) == v, "request-header-differs", lambda: f"{call}: {k}: handler saw {got.get(k)} of {v}")

    def run_async(self, call: dict, on_first: Any = None) -> Any:
        cid, kw = self.start(call)

        async def go() -> int:
            async def hook(i: int) -> None:
                if i == 0 and on_first is not None:
                    await on_first()

            r = await rpc.acall(self.clients[call["protocol"]], call["kind"], [rpc.mk_req("py", {"text": "q"})], on_message=lambda i, _m: hook(i), **kw)
            self.finished(cid, r)
            return cid

        return go()

    def run_sync(self, call: dict, on_first: Any = None) -> int:
        cid, kw = self.start(call)
        r = rpc.scall(
            self.clients[call["protocol"]], call["kind"], [rpc.mk_req("py", {"text": "q"})],
            on_message=lambda i, _m: on_first() if i == 0 and on_first is not None else None, **kw,
        )
        self.finished(cid, r)
        return cid

    def judge(self, md: Any, inside: list[int], where: str) -> None:
        """What a block shows, given the calls made inside it (in order of completion)."""
        for part, view in (("headers", md.headers), ("trailers", md.trailers)):
            got = group(list(view.allitems()))
            names = {k.lower() for c in self.calls for k, _ in [*c["res"], *c["tr"], *c["late"]]}
            sets = {}
            for cid in inside:
                call = self.calls[cid]
                hs = call["res"] if part == "headers" else [*call["tr"], *call["late"]]
                sets[cid] = group(tag(cid, hs))
            for k in names:
                vals = got.get(k, [])
                for v in vals:
                    owner = int(v[1:].split("=", 1)[0])
                    check(owner in inside, f"foreign-{part}", lambda: f"{where}: block of calls {inside} shows {k}: {v}")
                    check(v in sets[owner].get(k, []), f"{part}-not-set-by-handler", lambda: f"{where}: {k}: {v} of {sets[owner]}")
                if inside and not getattr(inside, "par", False):
                    last = inside[-1]
                    mine = [v for v in vals if v.startswith(f"c{last}=")]
                    check(mine == sets[last].get(k, []), f"{part}-differ", lambda: f"{where}: {self.calls[last]}: {k}: caller sees {vals}, handler set {sets[last].get(k, [])}")
                if len(inside) == 1:
                    check(len(vals) == len(sets[inside[0]].get(k, [])), f"{part}-differ", lambda: f"{where}: {k}: {vals}")


# -- single calls --------------------------------------------------------------------------------


def one_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "pair": st.sampled_from(["async-asgi", "sync-wsgi", "async-asgi", "sync-wsgi", "async-wsgi", "sync-asgi"]),
            "codec": st.sampled_from(["proto", "json"]),
            "plan": rpc.PLAN,
            "call": CALL,
        }
    )


def one_test(c: dict, rec: Any) -> None:
    c = {**c, "call": dict(c["call"])}
    w, call = World(c), c["call"]
    if w.flavour == "async":

        async def go() -> Any:
            with ResponseMetadata() as md:
                await w.run_async(call)
            return md

        md = vclock.run(go).value
    else:
        with ResponseMetadata() as md:
            w.run_sync(call)
    w.judge(md, [0], c["pair"])
    rec.label(f"{call['protocol']}/{call['kind']}/{'error' if call['error'] else 'ok'}")
    rec.label(c["pair"])
    rep = any(len(v) > 1 for hs in (call["req"], call["res"], call["tr"] + call["late"]) for v in group(hs).values())
    if rep or (call["error"] and (call["res"] or call["tr"] or call["late"])):
        rec.nontrivial(f"{call['protocol']}/{call['kind']} {'repeated' if rep else 'failed'}")


# -- histories of blocks ---------------------------------------------------------------------------


def ops(depth: int) -> st.SearchStrategy:
    small = CALL.map(lambda c: {**c, "res": c["res"][:2], "tr": c["tr"][:2], "req": c["req"][:1]})
    leaf = [st.tuples(st.just("call"), small), st.tuples(st.just("call"), small), st.tuples(st.just("sleep"), st.integers(0, 3))]
    if depth > 0:
        sub = st.deferred(lambda: ops(depth - 1))
        leaf += [
            st.tuples(st.just("block"), sub),
            st.tuples(st.just("block"), sub),
            st.tuples(st.just("par"), st.lists(sub, min_size=2, max_size=3)),
            st.tuples(st.just("around"), small, sub),
        ]
    return st.lists(st.one_of(leaf), min_size=1, max_size=3)


def hist_strategy(pairs: list[str]) -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "pair": st.sampled_from(pairs),
            "codec": st.just("proto"),
            "plan": st.sampled_from([[], [1]]),
            "ops": ops(2),
        }
    )


async def exec_async(w: World, program: list, inside: Inside | None) -> None:
    for op in program:
        if op[0] == "call":
            cid = await w.run_async(dict(op[1]))
            if inside is not None:
                inside.append(cid)
        elif op[0] == "sleep":
            await asyncio.sleep(op[1])
        elif op[0] == "block":
            mine = Inside()
            with ResponseMetadata() as md:
                await exec_async(w, op[1], mine)
            w.judge(md, mine, "block")
        elif op[0] == "par":
            if inside is not None:
                inside.par = True
            # tasks started inside the block belong to it; their own blocks do not
            await asyncio.gather(*[asyncio.create_task(exec_async(w, p, inside)) for p in op[1]])
        else:

            async def nested(sub: list = op[2]) -> None:
                mine = Inside()
                with ResponseMetadata() as md:
                    await exec_async(w, sub, mine)
                w.judge(md, mine, "inner")

            call = {**op[1], "kind": "server" if op[1]["kind"] != "bidi" else "bidi", "n": max(1, op[1]["n"])}
            cid = await w.run_async(call, nested)
            if inside is not None:
                inside.append(cid)


def exec_sync(w: World, program: list, inside: Inside | None) -> None:
    for op in program:
        if op[0] == "call":
            cid = w.run_sync(dict(op[1]))
            if inside is not None:
                inside.append(cid)
        elif op[0] == "block":
            mine = Inside()
            with ResponseMetadata() as md:
                exec_sync(w, op[1], mine)
            w.judge(md, mine, "block")
        elif op[0] == "par":
            # another thread is outside every block of this one
            for p in op[1]:
                boxed: list[BaseException] = []

                def target(p: list = p, boxed: list = boxed) -> None:
                    try:
                        exec_sync(w, p, None)
                    except BaseException as e:  # noqa: BLE001
                        boxed.append(e)

                t = threading.Thread(target=target)
                t.start()
                t.join()
                if boxed:
                    raise boxed[0]
        elif op[0] == "around":

            def nested(sub: list = op[2]) -> None:
                mine = Inside()
                with ResponseMetadata() as md:
                    exec_sync(w, sub, mine)
                w.judge(md, mine, "inner")

            call = {**op[1], "kind": "server" if op[1]["kind"] != "bidi" else "bidi", "n": max(1, op[1]["n"])}
            cid = w.run_sync(call, nested)
            if inside is not None:
                inside.append(cid)


def kinds_of(program: list, depth: int = 0) -> set:
    out: set = set()
    for op in program:
        if op[0] in ("block", "around"):
            out |= {op[0] if depth == 0 else "nested-" + op[0]} | kinds_of(op[-1], depth + 1)
        elif op[0] == "par":
            out.add("par")
            for p in op[1]:
                out |= kinds_of(p, depth)
        elif op[0] == "call":
            out.add("call" if depth else "outside")
    return out


def hist_test(c: dict, rec: Any) -> None:
    w = World(c)
    if w.flavour == "async":
        o = vclock.run(lambda: exec_async(w, c["ops"], None))
        check(not o.unhandled and not o.leaked, "left-overs", lambda: f"{o.unhandled} {o.leaked}")
    else:
        exec_sync(w, c["ops"], None)
    ks = kinds_of(c["ops"])
    for k in ks:
        rec.label(k)
    rec.label(c["pair"])
    if len(w.calls) >= 2 and ks & {"par", "around", "outside", "nested-block", "nested-around"} and ks & {"block", "around"}:
        rec.nontrivial(f"{len(w.calls)} calls {sorted(ks)}")


# -- many and long headers -----------------------------------------------------------------------

LOTS = st.one_of(
    st.just(None),
    st.fixed_dictionaries(
        {
            "n": st.sampled_from([1, 20, 33, 65, 101, 129, 257, 400]),
            "names": st.sampled_from([1, 3, 50, 400]),
            "len": st.sampled_from([0, 1, 70, 255, 256, 1025, 4097, 8193, 20000]),
            "bin": st.booleans(),
        }
    ),
)


def lots(d: dict | None) -> list:
    if d is None:
        return []
    n = d["n"] if d["n"] * d["len"] < 400_000 else 20
    end = "-bin" if d["bin"] else ""
    return [(f"x-many-{i % d['names']}{end}", (f"{i}." if not d["bin"] else f"{i:04d}") + "abcdefghi/" * (d["len"] // 10) + "y" * (d["len"] % 10)) for i in range(n)]


def lots_strategy() -> st.SearchStrategy:
    parts = {k: LOTS for k in ("req", "res", "tr", "late")}
    return st.tuples(one_strategy(), st.fixed_dictionaries(parts)).map(lambda x: {**x[0], "lots": x[1]})


def lots_test(c: dict, rec: Any) -> None:
    one_test({**c, "call": {**c["call"], **{k: lots(d) for k, d in c["lots"].items()}}}, rec)
    for k, d in c["lots"].items():
        if d is not None:
            rec.label(k)
            rec.nontrivial(f"lots of {k}")


PARTS = [
    Part("lots", lots_strategy, lots_test, quick=300, shards=2),
    Part("calls", one_strategy, one_test, quick=6000, shards=4),
    Part("blocks-async", lambda: hist_strategy(["async-asgi"]), hist_test, quick=1500, shards=4),
    Part("blocks-sync", lambda: hist_strategy(["sync-wsgi"]), hist_test, quick=1500, shards=4),
    Part("sockets", lambda: interop.sockets_strategy(st.one_of(st.none(), rpc.ERRORS), True), interop.sockets_test, quick=500, shards=2),
]
