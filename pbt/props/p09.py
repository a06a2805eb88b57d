"""P09: message size limits are enforced exactly."""

from __future__ import annotations

from hypothesis import strategies as st

from connectrpc.errors import ConnectError

from .. import http, lots, msgs, rpc, vclock, wire
from ..core import Part, check

PID = "P09"
LEVEL = "exploration"
RULE = (
    "non-trivial: some message of the call has a size within 3 bytes of the limit (either side), or "
    "the compressed and decompressed sizes of a message lie on different sides of the limit"
)
ASSUMPTIONS = [
    "end-of-stream messages and trailer blocks are counted as messages by the limit and are kept below it (as in connect-go)",
    "bodies of error responses are outside the property",
]
QUICK_BUDGET = 75.0

ALGOS = ["gzip", "br", "zstd"]


def case(side: str, kind: str) -> st.SearchStrategy:
    multi = kind in ("client", "bidi") if side == "server" else kind in ("server", "bidi")
    m = (msgs.reqs if side == "server" else msgs.ress)(9000)
    return st.fixed_dictionaries(
        {
            "kind": st.just(kind),
            "flavour": st.sampled_from(["asgi", "wsgi"] if side == "server" else ["async", "sync"]),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)) if kind != "get" else st.just("connect"),
            "codec": st.sampled_from(["proto", "json"]),
            "enc": rpc.ENCODINGS,
            "mask": st.lists(st.booleans(), min_size=1, max_size=3),
            "level": st.integers(0, 3),
            "msgs": st.lists(m, min_size=1, max_size=4 if multi else 1),
            "which": st.integers(0, 3),
            "delta": st.one_of(
                st.sampled_from([-1, 0, 1]), st.integers(-3, 3), st.integers(-9000, 9000), st.just(10**9)
            ),
            "zside": st.booleans(),  # place the limit relative to the compressed size instead
            "plan": rpc.PLAN,
            "b64": st.booleans(),
            "interleave": st.sampled_from([None, [1], [1]]),
        }
    )


def limit_of(c: dict, sizes: list[int], zsizes: list[int], floor: int = 0) -> int:
    src = zsizes if c["zside"] else sizes
    return max(floor, src[c["which"] % len(src)] + c["delta"])


def describe(c: dict, rec, n: int, sizes: list[int], zsizes: list[int], first: int | None) -> None:
    rec.label(f"{c['flavour']}/{c['protocol']}/{c['kind']}")
    rec.label("over" if first is not None else "within")
    if any(abs(s - n) <= 3 for s in sizes):
        rec.nontrivial(f"boundary {c['flavour']} {c['protocol']} {c['kind']} {c['enc']}")
    elif any((s <= n) != (z <= n) for s, z in zip(sizes, zsizes)):
        rec.nontrivial(f"compressed size on the other side ({c['flavour']} {c['enc']})")


# -- servers ---------------------------------------------------------------------------------------


def server_strategy() -> st.SearchStrategy:
    return st.sampled_from(["unary", "get", "get", "client", "server", "bidi"]).flatmap(
        lambda k: case("server", k)
    )


def test_server(c: dict, rec) -> None:
    kind, protocol, flavour = c["kind"], c["protocol"], c["flavour"]
    get = kind == "get"
    unary = kind in ("unary", "get")
    stream = not (protocol == "connect" and unary)
    algo = c["enc"]
    payloads = [msgs.ref_encode(c["codec"], msgs.g_req(r)) for r in c["msgs"]]
    sizes = [len(p) for p in payloads]
    zsizes = [
        len(wire.compress(algo, p, c["level"])) if algo and (not stream or c["mask"][i % len(c["mask"])]) else len(p)
        for i, p in enumerate(payloads)
    ]
    n = limit_of(c, sizes, zsizes)
    first = next((i for i, s in enumerate(sizes) if s > n), None)
    svc = rpc.Script(ress=[{"text": "r"}, {"num": 5}][: 1 if kind in ("unary", "get", "client") else 2],
                     interleave=c["interleave"])
    app = rpc.make_app(flavour, svc, compressions=rpc.comps(ALGOS), read_max_bytes=n)
    if get:
        q = wire.get_query(c["codec"], payloads[0], compression=algo, b64=c["b64"] or c["codec"] == "proto" or bool(algo), level=c["level"])
        out = http.call(flavour, app, "GET", rpc.path("get"), [], query=q)
    else:
        headers, body = wire.build_request(
            protocol, kind == "unary", c["codec"], payloads, encoding=algo, compress_mask=c["mask"], levels=c["level"]
        )
        out = http.call(flavour, app, "POST", rpc.path(kind), headers, body, plan=c["plan"])
    where = f"limit {n}, sizes {sizes}, on the wire {zsizes}"
    check(out.complete and out.exc is None, "response-incomplete", lambda: f"{where}: {out.exc!r}")
    r = wire.interpret_response(
        protocol, unary, c["codec"], [], out.status, out.headers, out.body, out.trailers, first is None and kind in ("unary", "get", "client")
    )
    want = [msgs.nreq(m) for m in c["msgs"]]
    seen = [s for s in svc.seen]
    if first is None:
        check(r.error is None, "message-within-limit-refused", lambda: f"{where}: {r.error}")
        check(len(seen) == 1 and seen[0].reqs == want, "message-lost", where)
    else:
        check(r.error is not None, "message-over-limit-accepted", where)
        check(r.error.code == "resource_exhausted", "wrong-code", lambda: f"{where}: {r.error}")
        if kind in ("client", "bidi"):
            check(len(seen) == 1, "handler-not-run", where)
            check(seen[0].reqs == want[:first], "delivered-messages", lambda: f"{where}: {len(seen[0].reqs)} delivered")
            check(not seen[0].ended and isinstance(seen[0].req_error, ConnectError), "stream-ended-cleanly", where)
            if kind == "bidi" and c["interleave"]:
                # one request is read before each response, so the earlier ones were answered
                check(len(r.messages) == min(first, 2), "earlier-responses-lost", lambda: f"{where}: {len(r.messages)}")
        else:
            check(not seen, "oversized-message-reached-handler", where)
    describe(c, rec, n, sizes, zsizes, first)


# -- clients --------------------------------------------------------------------------------------


def client_strategy() -> st.SearchStrategy:
    return st.sampled_from(["unary", "get", "client", "server", "bidi"]).flatmap(lambda k: case("client", k))


def test_client(c: dict, rec) -> None:
    kind, protocol, flavour = c["kind"], c["protocol"], c["flavour"]
    unary = kind in ("unary", "get")
    stream = not (protocol == "connect" and unary)
    algo = c["enc"]
    payloads = [msgs.ref_encode(c["codec"], msgs.g_res(r)) for r in c["msgs"]]
    sizes = [len(p) for p in payloads]
    zsizes = [
        len(wire.compress(algo, p, c["level"])) if algo and (not stream or c["mask"][i % len(c["mask"])]) else len(p)
        for i, p in enumerate(payloads)
    ]
    headers = [("content-type", wire.content_type(protocol, c["codec"], stream))]
    if algo:
        headers.append((wire.enc_headers(protocol, stream)[0], algo))
    end, trailers, floor = b"", None, 0
    if stream:
        body = b"".join(
            wire.env(1, wire.compress(algo, p, c["level"])) if algo and c["mask"][i % len(c["mask"])] else wire.env(0, p)
            for i, p in enumerate(payloads)
        )
        end, trailers = wire.end_of_stream(protocol, None, [])
        floor = len(end) - 5 if end else 0
    else:
        body = wire.compress(algo, payloads[0], c["level"]) if algo else payloads[0]
    n = limit_of(c, sizes, zsizes, floor)
    first = next((i for i, s in enumerate(sizes) if s > n), None)
    canned = http.Canned(200, headers, http.split(body + end, c["plan"]), trailers)
    kw = dict(
        protocol=rpc.PROTOCOLS[protocol], codec=rpc.codec(c["codec"]), accept_compression=rpc.comps(ALGOS),
        send_compression=None, read_max_bytes=n,
    )
    reqs = [rpc.mk_req("py", {"text": "q"})]
    get = kind == "get" and protocol == "connect"
    if flavour == "async":

        async def go():
            return await rpc.acall(rpc.aclient(http.CannedAsync(lambda _s: canned), **kw), kind, reqs, use_get=get)

        r = vclock.run(go).value
    else:
        r = rpc.scall(rpc.sclient(http.CannedSync(lambda _s: canned), **kw), kind, reqs, use_get=get)
    where = f"limit {n}, sizes {sizes}, on the wire {zsizes}"
    want = [msgs.nres(m) for m in c["msgs"]]
    if first is None:
        check(r.error is None, "message-within-limit-refused", lambda: f"{where}: {r.error!r}")
        check(r.messages == want, "message-lost", where)
    else:
        check(r.error is not None, "message-over-limit-accepted", where)
        e = rpc.observed_error(r.error)
        check(e.code == "resource_exhausted", "wrong-code", lambda: f"{where}: {e}")
        check(r.messages == want[:first], "delivered-messages", lambda: f"{where}: {len(r.messages)} delivered")
    describe(c, rec, n, sizes, zsizes, first)


PARTS = [
    Part("server", server_strategy, test_server, quick=4000, shards=4),
    Part("client", client_strategy, test_client, quick=4000, shards=4),
    Part("lots-server", lots.strategy(server_strategy), lots.test(test_server, multi=lambda c, k: c["kind"] in ("client", "bidi")), quick=160, shards=2),
    Part("lots-client", lots.strategy(client_strategy), lots.test(test_client, multi=lambda c, k: c["kind"] in ("server", "bidi")), quick=160, shards=2),
]
