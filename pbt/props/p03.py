"""P03: an incomplete message stream is never mistaken for a complete one."""

from __future__ import annotations

import pyqwest
from hypothesis import strategies as st

from .. import http, lots, msgs, rawnet, rpc, vclock, wire
from ..core import Part, check
from .p02 import response

PID = "P03"
LEVEL = "fault_enumeration"
RULE = (
    "each evaluation is one (body, cut position) pair; non-trivial cases have a body of at least "
    "one complete message and at least 3 cut positions, all of them executed"
)
ASSUMPTIONS = [
    "a request stream that ends exactly at a message boundary is complete (half-close is its only end marker)",
    "unary Connect bodies without content length or compression carry no end marker and are excluded",
]
QUICK_BUDGET = 100.0

ENC = st.sampled_from([None, None, "gzip", "br", "zstd"])


def positions(body: bytes, bounds: list[int], extra: list[int], limit: int = 140) -> list[int]:
    """Proper prefixes of body to try: all, or those near boundaries plus generated ones."""
    if len(body) <= limit:
        return list(range(len(body)))
    near = {b + d for b in [0, *bounds, len(body)] for d in range(-6, 8)}
    near |= {x % len(body) for x in extra}
    return sorted(p for p in near if 0 <= p < len(body))


def boundaries(envs: list[bytes]) -> list[int]:
    out, n = [], 0
    for e in envs:
        n += len(e)
        out.append(n)
    return out


# -- server: request streams ----------------------------------------------------------------


def server_strategy() -> st.SearchStrategy:
    def build(kind: str) -> st.SearchStrategy:
        multi = kind in ("client", "bidi")
        return st.fixed_dictionaries(
            {
                "flavour": st.sampled_from(["asgi", "wsgi"]),
                "kind": st.just(kind),
                "protocol": st.sampled_from(
                    ["grpc", "grpcweb"] if kind == "unary" else list(rpc.PROTOCOLS)
                ),
                "codec": st.sampled_from(["proto", "json"]),
                "enc": ENC,
                "mask": st.lists(st.booleans(), min_size=1, max_size=3),
                "reqs": st.lists(msgs.reqs(5000), min_size=1, max_size=4 if multi else 1),
                "extra": st.lists(st.integers(0, 10**6), max_size=6),
                "plan": rpc.PLAN,
                "how": st.sampled_from(["eof", "eof", "gone"]),
                "interleave": st.one_of(st.none(), st.just([1])),
            }
        )

    return st.sampled_from(["unary", "client", "server", "bidi"]).flatmap(build)


def test_server(c: dict, rec) -> None:
    kind, protocol, flavour = c["kind"], c["protocol"], c["flavour"]
    algo = c["enc"] or "identity"
    envs, masks = [], []
    for i, r in enumerate(c["reqs"]):
        p = msgs.ref_encode(c["codec"], msgs.g_req(r))
        z = algo != "identity" and c["mask"][i % len(c["mask"])]
        envs.append(wire.env(1, wire.compress(algo, p)) if z else wire.env(0, p))
        masks.append(z)
    headers, _ = wire.build_request(protocol, False, c["codec"], [], encoding=c["enc"])
    body = b"".join(envs)
    bounds = boundaries(envs)
    want = [msgs.nreq(r) for r in c["reqs"]]
    # the server tells: a disconnect event, or an announced length
    told = c["how"] == "gone"
    n = 0
    for cut in positions(body, bounds, c["extra"]):
        at_boundary = cut == 0 or cut in bounds
        if at_boundary and not told and kind in ("client", "bidi"):
            continue
        svc = rpc.Script(ress=[{"text": "r"}], interleave=c["interleave"])
        app = rpc.make_app(flavour, svc, compressions=rpc.comps(["gzip", "br", "zstd"]))
        chunks = http.split(body[:cut], c["plan"])
        if flavour == "asgi":
            scope = http.asgi_scope("POST", rpc.path(kind), b"", headers)
            if told:
                ev = [{"type": "http.request", "body": x, "more_body": True} for x in chunks]
                ev.append({"type": "http.disconnect"})
            else:
                ev = http.body_events(chunks)
            out = http.asgi_call(app, scope, ev)
        else:
            env = http.wsgi_environ(
                "POST", rpc.path(kind), "", headers, http.ChunkedInput(chunks), content_length=len(body) if told else None
            )
            out = http.wsgi_call(app, env)
        n += 1
        whole = sum(1 for b in bounds if b <= cut)
        where = f"cut at {cut} of {len(body)} (boundaries {bounds}, {c['how']})"
        for s in svc.seen:
            check(not s.ended or kind in ("unary", "server"), "handler-saw-clean-end", where)
            check(kind in ("client", "bidi"), "handler-ran-on-truncated-request", where)
            check(s.reqs == want[: len(s.reqs)] and len(s.reqs) <= whole, "delivered-not-a-prefix", where)
            if not c["interleave"]:
                check(len(s.reqs) == whole, "complete-messages-lost", lambda: f"{where}: {len(s.reqs)} of {whole}")
        check(out.complete, "response-incomplete", lambda: f"{where}: {out.exc!r}")
        r = wire.interpret_response(
            protocol, False, c["codec"], [], out.status, out.headers, out.body, out.trailers, False
        )
        check(r.error is not None, "truncated-request-answered-with-success", where)
    rec.evals(max(0, n - 1))
    rec.label(f"{flavour}/{protocol}/{kind}")
    rec.label(c["how"])
    if n >= 3:
        rec.nontrivial(f"{flavour} {kind} {c['how']}")


# -- server: unary Connect bodies -------------------------------------------------------------


def unary_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "flavour": st.sampled_from(["asgi", "wsgi"]),
            "codec": st.sampled_from(["proto", "json"]),
            "enc": ENC,
            "level": st.integers(0, 3),
            "req": msgs.reqs(5000),
            "extra": st.lists(st.integers(0, 10**6), max_size=6),
            "plan": rpc.PLAN,
            "how": st.sampled_from(["length", "eof"]),
        }
    )


def test_unary(c: dict, rec) -> None:
    flavour, enc = c["flavour"], c["enc"]
    how = c["how"]
    if how == "eof" and enc is None:
        how = "length"
    p = msgs.ref_encode(c["codec"], msgs.g_req(c["req"]))
    headers, body = wire.build_request("connect", True, c["codec"], [p], encoding=enc, levels=c["level"])
    n = 0
    for cut in positions(body, [], c["extra"]):
        if how == "eof" and cut == 0:
            continue  # an empty body is a valid (default) message
        svc = rpc.Script(ress=[{"text": "r"}])
        app = rpc.make_app(flavour, svc, compressions=rpc.comps(["gzip", "br", "zstd"]))
        chunks = http.split(body[:cut], c["plan"])
        if flavour == "asgi":
            h = [*headers, ("content-length", str(len(body)))] if how == "length" else headers
            ev = (
                [{"type": "http.request", "body": x, "more_body": True} for x in chunks]
                + [{"type": "http.disconnect"}]
                if how == "length"
                else http.body_events(chunks)
            )
            out = http.asgi_call(app, http.asgi_scope("POST", rpc.path("unary"), b"", h), ev)
        else:
            env = http.wsgi_environ(
                "POST", rpc.path("unary"), "", headers, http.ChunkedInput(chunks),
                content_length=len(body) if how == "length" else None,
            )
            out = http.wsgi_call(app, env)
        n += 1
        where = f"cut at {cut} of {len(body)} ({flavour} {how} {enc})"
        check(not svc.seen, "handler-ran-on-truncated-request", where)
        check(out.complete, "response-incomplete", lambda: f"{where}: {out.exc!r}")
        check(out.status >= 400, "truncated-request-answered-with-success", where)
    rec.evals(max(0, n - 1))
    rec.label(f"{flavour}/{how}/{enc}")
    if n >= 3:
        rec.nontrivial(f"{flavour} unary {how} {enc}")


# -- compressed payload cut inside a correctly sized envelope --------------------------------


def payload_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "side": st.sampled_from(["server", "client"]),
            "flavour": st.sampled_from(["async", "sync"]),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "codec": st.sampled_from(["proto", "json"]),
            "enc": st.sampled_from(["gzip", "br", "zstd"]),
            "level": st.integers(0, 3),
            "msg": msgs.reqs(3000),
            "rmsg": msgs.ress(3000),
            "extra": st.lists(st.integers(0, 10**6), max_size=6),
        }
    )


def test_payload(c: dict, rec) -> None:
    enc = c["enc"]
    n = 0
    if c["side"] == "server":
        p = msgs.ref_encode(c["codec"], msgs.g_req(c["msg"]))
    else:
        p = msgs.ref_encode(c["codec"], msgs.g_res(c["rmsg"]))
    z = wire.compress(enc, p, c["level"])
    for cut in positions(z, [], c["extra"]):
        if cut == 0:
            continue
        where = f"payload cut at {cut} of {len(z)} ({c['side']} {c['flavour']} {enc})"
        n += 1
        if c["side"] == "server":
            flavour = "asgi" if c["flavour"] == "async" else "wsgi"
            svc = rpc.Script(ress=[{"text": "r"}])
            app = rpc.make_app(flavour, svc, compressions=rpc.comps(["gzip", "br", "zstd"]))
            headers, _ = wire.build_request(c["protocol"], False, c["codec"], [], encoding=enc)
            out = http.call(flavour, app, "POST", rpc.path("client"), headers, wire.env(1, z[:cut]))
            check(out.complete, "response-incomplete", lambda: f"{where}: {out.exc!r}")
            for s in svc.seen:
                check(not s.reqs, "truncated-payload-delivered", where)
            r = wire.interpret_response(
                c["protocol"], False, c["codec"], [], out.status, out.headers, out.body, out.trailers, False
            )
            check(r.error is not None, "truncated-payload-accepted", where)
        else:
            h = [
                ("content-type", wire.content_type(c["protocol"], c["codec"], True)),
                (wire.enc_headers(c["protocol"], True)[0], enc),
            ]
            end, tr = wire.end_of_stream(c["protocol"], None, [])
            r = call_client(c["flavour"], c["protocol"], c["codec"], "server",
                            http.Canned(200, h, [wire.env(1, z[:cut]) + end], tr))
            check(r.error is not None and not r.messages, "truncated-payload-accepted", where)
            rpc.observed_error(r.error)
    rec.evals(max(0, n - 1))
    rec.label(f"{c['side']}/{c['flavour']}/{enc}")
    if n >= 3:
        rec.nontrivial(f"payload {c['side']} {enc}")


# -- client: response streams -------------------------------------------------------------------


def call_client(flavour: str, protocol: str, codec: str, kind: str, canned: http.Canned) -> rpc.Result:
    kw = dict(
        protocol=rpc.PROTOCOLS[protocol], codec=rpc.codec(codec),
        accept_compression=rpc.comps(["gzip", "br", "zstd"]), send_compression=None,
    )
    reqs = [rpc.mk_req("py", {"text": "q"})]
    if flavour == "async":

        async def go():
            return await rpc.acall(rpc.aclient(http.CannedAsync(lambda _s: canned), **kw), kind, reqs)

        return vclock.run(go).value
    return rpc.scall(rpc.sclient(http.CannedSync(lambda _s: canned), **kw), kind, reqs)


def client_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "flavour": st.sampled_from(["async", "sync"]),
            "kind": st.sampled_from(["client", "server", "bidi", "unary"]),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "codec": st.sampled_from(["proto", "json"]),
            "enc": ENC,
            "mask": st.lists(st.booleans(), min_size=1, max_size=3),
            "ress": st.lists(msgs.ress(5000), max_size=4),
            "error": st.one_of(st.none(), st.none(), rpc.CONNECT_ERRORS),
            "trailers": rpc.HEADER_LIST,
            "extra": st.lists(st.integers(0, 10**6), max_size=6),
            "plan": rpc.PLAN,
            "how": st.sampled_from(["eof", "eof", "ioerror", "reset"]),
            "keep_trailers": st.booleans(),
            # what proxies and other servers write in front of a body; not where its status is
            "early": st.sampled_from([None, None, "grpc-status", "grpc-message", "trailer-grpc-status", "content-length"]),
        }
    )


def test_client(c: dict, rec) -> None:
    if c["kind"] == "unary" and c["protocol"] == "connect":
        c = {**c, "kind": "server"}
    if c["kind"] in ("unary", "client"):
        c = {**c, "ress": (c["ress"] or [{"text": "x"}])[:1]}
    h, body, trailers = response(c)
    envs = [wire.env(f, d) for f, d in wire.parse_envs(body)]
    bounds = boundaries(envs)
    want = [msgs.nres(r) for r in c["ress"]]
    cutlist = positions(body, bounds, c["extra"])
    if c["protocol"] == "grpc":
        cutlist.append(len(body))  # complete body, trailers missing
    n = 0
    for cut in cutlist:
        keep = c["keep_trailers"] and c["how"] == "eof" and c["protocol"] == "grpc"
        if keep and (cut == 0 or cut in bounds):
            # The trailers are the end marker: this is a complete, shorter stream.
            continue
        fail = None
        if c["how"] == "ioerror":
            fail = lambda: pyqwest.ReadError("connection lost")  # noqa: E731
        elif c["how"] == "reset":
            fail = lambda: pyqwest.StreamError("reset", pyqwest.StreamErrorCode.INTERNAL_ERROR)  # noqa: E731
        tr = trailers if keep else None
        early = {
            "grpc-status": [("grpc-status", "0")], "grpc-message": [("grpc-status", "0"), ("grpc-message", "")],
            "trailer-grpc-status": [("trailer-grpc-status", "0"), ("trailer", "grpc-status")],
            "content-length": [("content-length", str(len(body)))],
        }.get(c["early"], []) if cut else []  # without a body the headers may be the whole answer
        canned = http.Canned(200, [*h, *early], http.split(body[:cut], c["plan"]), tr, fail=fail)
        r = call_client(c["flavour"], c["protocol"], c["codec"], c["kind"], canned)
        n += 1
        where = f"cut at {cut} of {len(body)} (boundaries {bounds}, {c['how']}, trailers {tr})"
        check(r.error is not None, "truncated-response-looks-successful", lambda: f"{where}: {r.messages}")
        rpc.observed_error(r.error)
        if c["kind"] in ("server", "bidi"):
            whole = min(sum(1 for b in bounds if b <= cut), len(want))
            check(r.messages == want[:whole], "delivered-not-the-complete-ones", lambda: f"{where}: {r.messages}")
        else:
            check(not r.messages, "message-from-truncated-response", where)
    rec.evals(max(0, n - 1))
    rec.label(f"{c['flavour']}/{c['protocol']}/{c['kind']}")
    rec.label(c["how"])
    if n >= 3 and c["ress"]:
        rec.nontrivial(f"{c['flavour']} {c['protocol']} {c['how']}")


LOTS = {"counts": st.sampled_from([5, 9, 14]), "sizes": st.sampled_from([9000, 16385, 65537, 131073])}

PARTS = [
    Part("server", server_strategy, test_server, quick=300, shards=2),
    Part("server-unary", unary_strategy, test_unary, quick=200, shards=1),
    Part("payload", payload_strategy, test_payload, quick=240, shards=2),
    Part("client", client_strategy, test_client, quick=300, shards=2),
    Part("raw-request", rawnet.request_strategy, rawnet.request_test, quick=600, shards=2),
    Part("raw-response", lambda: rawnet.response_strategy(True), rawnet.response_test, quick=600, shards=2),
    Part("caller", rawnet.caller_strategy, rawnet.caller_test, quick=400, shards=2),
    Part("lots-server", lots.strategy(server_strategy, **LOTS), lots.test(test_server), quick=40, shards=2),
    Part("lots-client", lots.strategy(client_strategy, **LOTS), lots.test(test_client, multi=lambda c, k: k == "ress"), quick=40, shards=2),
]
