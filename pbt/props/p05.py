"""P05: server responses follow the wire protocols exactly."""

from __future__ import annotations

from hypothesis import strategies as st

from .. import http, interop, lots, msgs, rpc, wire
from ..core import Part, check
from ..gen import vt_pb2 as G

PID = "P05"
LEVEL = "exploration"
RULE = (
    "non-trivial: the response carries at least two of: several messages, compression, an error, "
    "response headers, response trailers"
)
ASSUMPTIONS = [
    "the reference decoder in pbt/wire.py states the published protocol documents",
    "handler metadata uses header names and values legal in HTTP",
]
QUICK_BUDGET = 100.0


def strategy() -> st.SearchStrategy:
    def build(kind: str) -> st.SearchStrategy:
        return st.fixed_dictionaries(
            {
                "flavour": st.sampled_from(["asgi", "wsgi"]),
                "kind": st.just(kind),
                "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
                "codec": st.sampled_from(["proto", "json"]),
                "rt": st.sampled_from(["py", "google"]),
                "enc": rpc.ENCODINGS,
                "accept": st.one_of(
                    st.none(),
                    st.lists(st.sampled_from(["gzip", "br", "zstd", "identity", "deflate", "snappy"]), max_size=4),
                ),
                "accept_sep": st.sampled_from([",", ", ", " , "]),
                "srv": rpc.COMP_SET,
                "reqs": st.lists(msgs.reqs(), min_size=1, max_size=3 if kind in ("client", "bidi") else 1),
                "ress": st.lists(msgs.ress(6000), max_size=4)
                if kind in ("server", "bidi")
                else st.lists(msgs.ress(6000), min_size=1, max_size=1),
                "error": st.one_of(st.none(), rpc.ERRORS),
                "headers": rpc.HEADER_LIST,
                "trailers": rpc.HEADER_LIST,
                "late": rpc.HEADER_LIST,
                # trailers of another call, as a proxy may copy them
                "owned": st.one_of(st.just([]), st.just([]), st.lists(OWNED, min_size=1, max_size=2)),
                "interleave": st.one_of(st.none(), st.just([1])),
                "bare_ct": st.booleans(),
                "get": st.booleans(),
            }
        )

    return st.sampled_from(rpc.KINDS).flatmap(build)


OWNED = st.tuples(
    st.sampled_from(["grpc-status", "grpc-message", "grpc-status-details-bin"]), st.sampled_from(["0", "5", "7", "CAUSB3dyb25n", ""])
)
RESERVED = {"content-type", "content-encoding", "connect-content-encoding", "grpc-encoding", "vary", "allow"}


def test(c: dict, rec) -> None:
    kind, protocol, flavour = c["kind"], c["protocol"], c["flavour"]
    unary = kind in ("unary", "get")
    srv = c["srv"]
    enc = c["enc"]
    if enc and enc not in (["gzip"] if srv is None else srv):
        srv = [*(srv or []), enc]
    svc = rpc.Script(
        rt=c["rt"], ress=c["ress"], error=c["error"], interleave=c["interleave"],
        res_headers=c["headers"], res_trailers=c["trailers"] + [tuple(x) for x in c["owned"]], late_trailers=c["late"],
    )
    app = rpc.make_app(flavour, svc, rt=c["rt"], compressions=rpc.comps(srv))
    payloads = [msgs.ref_encode(c["codec"], msgs.g_req(r)) for r in c["reqs"]]
    headers, body = wire.build_request(protocol, unary, c["codec"], payloads, encoding=enc)
    if c["accept"] is not None:
        headers.append((wire.enc_headers(protocol, not (protocol == "connect" and unary))[1],
                        c["accept_sep"].join(c["accept"])))
    if c["bare_ct"] and protocol != "connect" and c["codec"] == "proto":
        headers[0] = ("content-type", headers[0][1].removesuffix("+proto"))
    out = http.call(flavour, app, "POST", rpc.path(kind), headers, body)

    internal = c["error"] is not None and "exc" in c["error"]
    check(out.complete, "response-incomplete", lambda: repr(out.exc))
    if out.exc is not None:
        # An ASGI application may re-raise what a handler raised, after answering.
        check(internal and flavour == "asgi", "application-raised", repr(out.exc))
    check(not out.leaked, "leaked-task", out.leaked)
    r = wire.interpret_response(
        protocol, unary, c["codec"], c["accept"] or [], out.status, out.headers, out.body,
        out.trailers, kind in ("unary", "get", "client"),
    )
    got = [msgs.norm(msgs.ref_decode(c["codec"], m, G.Res)) for m in r.messages]
    if c["error"] is not None:
        want_err = rpc.expected_error(c["error"])
        check(r.error == want_err, "wire-error-differs", f"{r.error} want {want_err}")
        if kind in ("server", "bidi"):
            check(got == [msgs.nres(x) for x in c["ress"]], "wire-messages-differ", got)
        else:
            check(got == [], "message-with-error", got)
    else:
        check(r.error is None, "unexpected-wire-error", str(r.error))
        check(got == [msgs.nres(x) for x in c["ress"]], "wire-messages-differ", got)
    # metadata on the wire
    def sub(md: list, names: set) -> list:
        return sorted((k, [v for k2, v in md if k2 == k]) for k in names)

    hn = {k for k, _ in c["headers"]}
    check(sub(r.headers, hn) == sub(c["headers"], hn), "wire-headers-differ", f"{r.headers} want {c['headers']}")
    tr = c["trailers"] + ([tuple(x) for x in c["owned"]] if protocol == "connect" else []) + c["late"]
    got_tr = sorted({k for k, _ in r.trailers})
    check(got_tr == sorted({k for k, _ in tr}), "wire-trailer-names", f"{r.trailers} want {tr}")
    tn = set(got_tr)
    check(sub(r.trailers, tn) == sub(tr, tn), "wire-trailers-differ", f"{r.trailers} want {tr}")
    extra = {k for k, _ in r.headers} - hn - RESERVED
    check(not extra, "wire-unexpected-headers", str(extra))
    if protocol != "connect" and not r.error and not unary and kind != "client" and not c["ress"]:
        rec.label("empty-stream")
    # uncompressed streams must not be flagged compressed and vice versa
    if r.encoding != "identity" and r.compressed_flags:
        check(all(r.compressed_flags), "uncompressed-despite-negotiation", str(r.compressed_flags))

    rec.label(f"{flavour}/{protocol}/{kind}")
    rec.label(f"enc-{r.encoding}")
    rec.label("error" if r.error else "ok")
    score = (
        (len(c["ress"]) > 1) + (r.encoding != "identity") + bool(r.error) + bool(c["headers"]) + bool(tr)
    )
    if score >= 2:
        rec.nontrivial(f"{flavour} {protocol}")


PARTS = [Part("server", strategy, test, quick=8000, shards=8),
    Part("grpcio", interop.server_strategy, interop.server_test, quick=600, shards=2),
    Part("lots", lots.strategy(strategy), lots.test(test), quick=320, shards=4),
]
