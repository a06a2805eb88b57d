"""P02: results do not depend on how the transport cuts the bytes."""

from __future__ import annotations

import pyqwest
from hypothesis import strategies as st

from connectrpc.client import ResponseMetadata

from .. import http, lots, msgs, rpc, vclock, wire
from ..core import Part, check

PID = "P02"
LEVEL = "exploration"
RULE = (
    "non-trivial: the body is at least 7 bytes and at least two different cuttings of it were "
    "compared (for bodies up to 160 bytes, every two-piece cutting)"
)
ASSUMPTIONS = ["chunks are delivered in order and without loss (HTTP guarantees this)"]
QUICK_BUDGET = 100.0

MUTATION = st.one_of(
    st.none(),
    st.none(),
    st.tuples(st.just("flip"), st.integers(0, 10**6), st.integers(1, 255)),
    st.tuples(st.just("insert"), st.integers(0, 10**6), st.binary(min_size=1, max_size=6)),
    st.tuples(st.just("delete"), st.integers(0, 10**6), st.integers(1, 8)),
    st.tuples(st.just("cut"), st.integers(0, 10**6)),
)


def mutate(data: bytes, m) -> bytes:
    if m is None or not data:
        return data
    i = m[1] % len(data)
    if m[0] == "flip":
        return data[:i] + bytes([data[i] ^ m[2]]) + data[i + 1 :]
    if m[0] == "insert":
        return data[:i] + m[2] + data[i:]
    if m[0] == "delete":
        return data[:i] + data[i + m[2] :]
    return data[:i]


PLANS = st.lists(rpc.PLAN.filter(bool), min_size=1, max_size=3)


def server_strategy() -> st.SearchStrategy:
    def build(kind: str) -> st.SearchStrategy:
        n = st.lists(msgs.reqs(9000), max_size=4) if kind in ("client", "bidi") else st.lists(
            msgs.reqs(9000), min_size=1, max_size=1
        )
        return st.fixed_dictionaries(
            {
                "flavour": st.sampled_from(["asgi", "wsgi"]),
                "kind": st.just(kind),
                "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
                "codec": st.sampled_from(["proto", "json"]),
                "enc": rpc.ENCODINGS,
                "mask": st.lists(st.booleans(), min_size=1, max_size=3),
                "reqs": n,
                "ress": st.lists(msgs.ress(), min_size=1, max_size=2),
                "mutation": MUTATION,
                "plans": PLANS,
                "trailing_empty": st.booleans(),
                "cl": st.booleans(),
            }
        )

    return st.sampled_from(["unary", "client", "server", "bidi", "bidi"]).flatmap(build)


def cuts(body: bytes, plans: list) -> list[list[int]]:
    out = [p for p in plans]
    if len(body) <= 160:
        out += [[i, len(body)] for i in range(1, len(body))]
        out.append([1])
    return out


def test_server(c: dict, rec) -> None:
    kind, protocol = c["kind"], c["protocol"]
    payloads = [msgs.ref_encode(c["codec"], msgs.g_req(r)) for r in c["reqs"]]
    headers, body = wire.build_request(
        protocol, kind == "unary", c["codec"], payloads, encoding=c["enc"], compress_mask=c["mask"]
    )
    body = mutate(body, c["mutation"])

    def run(plan: list[int], trailing_empty: bool):
        svc = rpc.Script(ress=c["ress"] if kind in ("server", "bidi") else c["ress"][:1])
        app = rpc.make_app(c["flavour"], svc, compressions=rpc.comps(["gzip", "br", "zstd"]))
        out = http.call(
            c["flavour"], app, "POST", rpc.path(kind), headers, body, plan=plan,
            trailing_empty=trailing_empty,
            content_length=len(body) if c["cl"] else "auto",
        )
        seen = [
            (s.kind, s.reqs, s.ended, type(s.req_error).__name__, str(s.req_error)) for s in svc.seen
        ]
        return (
            out.status, sorted(out.headers), out.body, out.trailers, out.complete,
            type(out.exc).__name__, seen,
        )

    whole = run([], False)
    n = 0
    variants = cuts(body, c["plans"])
    for plan in variants:
        got = run(plan, c["trailing_empty"])
        n += 1
        check(got == whole, "server-depends-on-chunking", lambda: f"cut {plan}: {got}\nwhole: {whole}")
    if c["trailing_empty"]:
        got = run([], True)
        check(got == whole, "server-depends-on-chunking", lambda: f"trailing empty: {got}\nwhole: {whole}")
    rec.evals(n)
    rec.label(f"{c['flavour']}/{protocol}/{kind}")
    rec.label("mutated" if c["mutation"] else "conforming")
    rec.label("handler-ran" if whole[-1] else "refused")
    if len(body) >= 7 and n >= 2:
        rec.nontrivial(f"{c['flavour']} {'mutated' if c['mutation'] else 'ok'}")


def client_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "flavour": st.sampled_from(["async", "sync"]),
            "kind": st.sampled_from(["client", "server", "bidi", "unary"]),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "codec": st.sampled_from(["proto", "json"]),
            "enc": rpc.ENCODINGS,
            "mask": st.lists(st.booleans(), min_size=1, max_size=3),
            "ress": st.lists(msgs.ress(9000), max_size=4),
            "error": st.one_of(st.none(), rpc.CONNECT_ERRORS),
            "trailers": rpc.HEADER_LIST,
            "mutation": MUTATION,
            "plans": PLANS,
        }
    )


def response(c: dict) -> tuple[list, bytes, list | None]:
    """A conforming streaming response."""
    algo = c["enc"] or "identity"
    h = [("content-type", wire.content_type(c["protocol"], c["codec"], True))]
    if c["enc"]:
        h.append((wire.enc_headers(c["protocol"], True)[0], c["enc"]))
    body = b""
    for i, r in enumerate(c["ress"]):
        p = msgs.ref_encode(c["codec"], msgs.g_res(r))
        z = algo != "identity" and c["mask"][i % len(c["mask"])]
        body += wire.env(1, wire.compress(algo, p)) if z else wire.env(0, p)
    err = rpc.expected_error(c["error"]) if c["error"] else None
    z = algo != "identity" and c["mask"][0]
    body_end, trailers = wire.end_of_stream(c["protocol"], err, c["trailers"], algo if z else None)
    return h, body + body_end, trailers


def run_client(c: dict, h: list, body: bytes, trailers, plan: list[int], status: int = 200, fail=None):
    kw = dict(
        protocol=rpc.PROTOCOLS[c["protocol"]], codec=rpc.codec(c["codec"]),
        accept_compression=rpc.comps(["gzip", "br", "zstd"]), send_compression=None,
    )
    reqs = [rpc.mk_req("py", {"text": "q"})]
    canned = http.Canned(status, h, http.split(body, plan), trailers, fail=fail)
    if c["flavour"] == "async":

        async def go():
            with ResponseMetadata() as md:
                r = await rpc.acall(rpc.aclient(http.CannedAsync(lambda _s: canned), **kw), c["kind"], reqs)
            return r, md

        o = vclock.run(go)
        r, md = o.value
    else:
        with ResponseMetadata() as md:
            r = rpc.scall(rpc.sclient(http.CannedSync(lambda _s: canned), **kw), c["kind"], reqs)
    err = rpc.observed_error(r.error) if r.error else None
    return r.messages, err, sorted(md.headers.allitems()), sorted(md.trailers.allitems())


def test_client(c: dict, rec) -> None:
    if c["kind"] == "unary" and c["protocol"] == "connect":
        c = {**c, "kind": "server"}
    h, body, trailers = response(c)
    body = mutate(body, c["mutation"])
    whole = run_client(c, h, body, trailers, [])
    n = 0
    for plan in cuts(body, c["plans"]):
        got = run_client(c, h, body, trailers, plan)
        n += 1
        check(got == whole, "client-depends-on-chunking", lambda: f"cut {plan}: {got}\nwhole: {whole}")
    rec.evals(n)
    rec.label(f"{c['flavour']}/{c['protocol']}/{c['kind']}")
    rec.label("mutated" if c["mutation"] else "conforming")
    rec.label("error" if whole[1] else "success")
    if len(body) >= 7 and n >= 2:
        rec.nontrivial(f"{c['flavour']} {'mutated' if c['mutation'] else 'ok'}")


PARTS = [
    Part("server", server_strategy, test_server, quick=500, shards=4),
    Part("client", client_strategy, test_client, quick=500, shards=4),
    Part("lots-server", lots.strategy(server_strategy), lots.test(test_server), quick=120, shards=2),
    Part("lots-client", lots.strategy(client_strategy), lots.test(test_client, multi=lambda c, k: k == "ress"), quick=120, shards=2),
]
_ = pyqwest
