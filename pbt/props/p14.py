"""P14: a GET call is equivalent to the POST call it stands for."""

from __future__ import annotations

from hypothesis import strategies as st

from connectrpc.client import ResponseMetadata
from connectrpc.request import Headers

from .. import http, lots, msgs, rpc, vclock, wire
from ..core import Part, check

PID = "P14"
LEVEL = "exploration"
RULE = (
    "non-trivial: the message is not empty and the query uses something beyond the library's own form "
    "(no base64, padding, other parameter order, other percent-encoding, compression), or the call fails, "
    "or it carries metadata; malformed cases: always"
)
ASSUMPTIONS = [
    "the reference for the GET query is the Connect protocol text: percent-encoded octets, or URL-safe base64 with optional padding",
    "standard-alphabet base64 and a compressed empty payload are left open (may be read or refused)",
]
QUICK_BUDGET = 75.0
ALGOS = ["gzip", "br", "zstd"]


def base_case() -> dict:
    return {
        "codec": st.sampled_from(["proto", "json"]),
        "req": msgs.reqs(1500),
        "res": msgs.ress(1500),
        "error": st.one_of(st.none(), st.none(), rpc.ERRORS),
        "res_headers": rpc.HEADER_LIST,
        "res_trailers": rpc.HEADER_LIST,
        "headers": rpc.HEADER_LIST,
        "enc": rpc.ENCODINGS,
        "accept": rpc.COMP_SET,
        "srv": st.one_of(st.none(), st.just(ALGOS)),
        "timeout": st.one_of(st.none(), st.integers(1, 10**6)),
    }


# -- the library's client: use_get against a plain call ------------------------------------------


def client_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            **base_case(),
            "pair": st.sampled_from(["async-asgi", "sync-wsgi", "async-wsgi", "sync-asgi"]),
            "rt": st.sampled_from(["py", "py", "google"]),
            "plan": rpc.PLAN,
        }
    )


def observe(c: dict, use_get: bool):
    caller, flavour = c["pair"].split("-")
    svc = rpc.Script(
        rt=c["rt"], ress=[c["res"]], error=c["error"], res_headers=c["res_headers"], res_trailers=c["res_trailers"]
    )
    app = rpc.make_app(flavour, svc, rt=c["rt"], compressions=rpc.comps(ALGOS))
    kw = dict(
        codec=rpc.codec(c["codec"], c["rt"]), accept_compression=rpc.comps(c["accept"]),
        send_compression=rpc.comp(c["enc"]) if c["enc"] else None,
    )
    call = dict(rt=c["rt"], use_get=use_get, headers=Headers(c["headers"]), timeout_ms=c["timeout"])
    reqs = [rpc.mk_req(c["rt"], c["req"])]
    with ResponseMetadata() as md:
        if caller == "async":
            t = http.AsgiLoopback(app, res_plan=c["plan"]) if flavour == "asgi" else http.BufferedToWsgi(app, res_plan=c["plan"])
            r = vclock.run(lambda: rpc.acall(rpc.aclient(t, **kw), "get", reqs, **call)).value
        else:
            t = http.WsgiLoopback(app, res_plan=c["plan"]) if flavour == "wsgi" else http.BufferedToAsgi(app, res_plan=c["plan"])
            with vclock.frozen():
                r = rpc.scall(rpc.sclient(t, **kw), "get", reqs, **call)
    names = {k for k, _ in c["headers"]}
    seen = [
        (s.kind, s.reqs, sorted(x for x in s.headers if x[0] in names), s.timeout_ms, s.server_address)
        for s in svc.seen
    ]
    skip = {"content-length", "date"}
    meta = (
        sorted(x for x in md.headers.allitems() if x[0] not in skip),
        sorted(md.trailers.allitems()),
    )
    err = None if r.error is None else rpc.observed_error(r.error)
    return (seen, r.messages, err, meta), [s.http_method for s in svc.seen], [q.method for q in t.requests]


def test_client(c: dict, rec) -> None:
    g, gm, gt = observe(c, True)
    p, pm, pt = observe(c, False)
    check(gt == ["GET"] and pt == ["POST"], "http-methods", f"{gt} {pt}")
    check(gm == ["GET"] and pm == ["POST"], "handler-http-method", f"{gm} {pm}")
    for name, a, b in zip(("request", "result", "error", "metadata"), g, p):
        check(a == b, f"get-post-{name}-differ", lambda: f"GET {a!r} POST {b!r}")
    check(g[0][0][1] == [msgs.nreq(c["req"])], "request-differs", repr(g[0]))
    rec.label(c["pair"])
    rec.label("error" if c["error"] else "ok")
    if c["req"] and (c["error"] or c["res_headers"] or c["res_trailers"] or c["enc"]):
        rec.nontrivial(f"{c['pair']} {c['codec']} {c['enc']}")


# -- any conforming peer: hand-built queries ------------------------------------------------------


def raw_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            **base_case(),
            "flavour": st.sampled_from(["asgi", "wsgi"]),
            "b64": st.booleans(),
            "pad": st.booleans(),
            "style": st.integers(0, 4),
            "order": st.integers(0, 119),
            "version": st.booleans(),
            "zero": st.booleans(),
            "level": st.integers(0, 3),
            "ctype": st.booleans(),
            "root": st.booleans(),
        }
    )


def observe_raw(c: dict, get: bool):
    svc = rpc.Script(ress=[c["res"]], error=c["error"], res_headers=c["res_headers"], res_trailers=c["res_trailers"])
    app = rpc.make_app(c["flavour"], svc, compressions=rpc.comps(ALGOS))
    payload = msgs.ref_encode(c["codec"], msgs.g_req(c["req"]))
    hs = list(c["headers"])
    if c["accept"] is not None:
        hs.append(("accept-encoding", ",".join(c["accept"])))
    if c["timeout"]:
        hs.append(("connect-timeout-ms", str(c["timeout"])))
    with vclock.frozen():
        if get:
            q = wire.get_query(
                c["codec"], payload, compression=c["enc"], b64=c["b64"], pad=c["pad"], style=c["style"],
                order=c["order"], version=c["version"], explicit_base64_0=c["zero"], level=c["level"],
            )
            out = http.call(c["flavour"], app, "GET", rpc.path("get"), hs, query=q)
        else:
            q = ""
            h, body = wire.build_request("connect", True, c["codec"], [payload], encoding=c["enc"], levels=c["level"])
            out = http.call(c["flavour"], app, "POST", rpc.path("get"), [*h, *hs], body)
    check(out.complete, "response-incomplete", lambda: f"{q}: {out.exc!r}")
    r = wire.interpret_response(
        "connect", True, c["codec"], c["accept"] or [], out.status, out.headers, out.body, out.trailers, False
    )
    names = {k for k, _ in c["headers"]}
    seen = [(s.kind, s.reqs, sorted(x for x in s.headers if x[0] in names), s.timeout_ms) for s in svc.seen]
    data = [msgs.norm(msgs.ref_decode(c["codec"], m, msgs.G.Res)) for m in r.messages]
    skip = {"content-length", "date"}
    return (
        seen, out.status, data, r.error,
        (sorted(x for x in r.headers if x[0] not in skip), sorted(r.trailers)),
    ), q


def test_raw(c: dict, rec) -> None:
    g, q = observe_raw(c, True)
    p, _ = observe_raw(c, False)
    check(len(g[0]) == 1, "get-refused", lambda: f"{q}: {g}")
    check(g[0][0][1] == [msgs.nreq(c["req"])], "request-differs", lambda: f"{q}: {g[0]}")
    for name, a, b in zip(("request", "status", "result", "error", "metadata"), g, p):
        check(a == b, f"get-post-{name}-differ", lambda: f"{q}: GET {a!r} POST {b!r}")
    rec.label(f"{c['flavour']}/{c['codec']}/{'b64' if c['b64'] else 'plain'}/{c['enc']}")
    if c["req"] and (not c["b64"] or c["pad"] or c["order"] or c["style"] or c["enc"] or c["error"]):
        rec.nontrivial(f"{c['flavour']} {c['codec']} {'b64' if c['b64'] else 'plain'} style {c['style']}")


# -- malformed queries -----------------------------------------------------------------------------

BAD = st.one_of(
    st.tuples(st.just("drop"), st.sampled_from(["message", "encoding"])),
    st.tuples(st.just("encoding"), st.sampled_from(["", "protobuf", "PROTO", "xml", "proto2", "json "])),
    st.tuples(st.just("compression"), st.sampled_from(["deflate", "GZIPP", "x", "zip"])),
    # "!" and blanks are in no base64 alphabet; 1 mod 4 is no base64 length
    st.tuples(st.just("b64-junk"), st.integers(0, 10**6), st.sampled_from(["!", "$", "%20", "*", "%C3%A9", "\\", "%00", "%25"])),
    st.tuples(st.just("b64-length"), st.sampled_from("AbZ9_-")),
    st.tuples(st.just("b64-inner-pad"), st.integers(1, 10**6)),
    st.tuples(st.just("undecodable"), st.sampled_from([b"\xff", b"\x0a\x05ab", b"{", b'{"text": 1}', b"\x0a", b"[]", b"\x07"])),
    st.tuples(st.just("corrupt"), st.sampled_from(ALGOS), st.binary(min_size=1, max_size=12)),
    st.tuples(st.just("version"), st.sampled_from(["v2", "1", "v", "v1.0", "V1"])),
    st.tuples(st.just("no-query"),),
)


def bad_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "flavour": st.sampled_from(["asgi", "wsgi"]),
            "codec": st.sampled_from(["proto", "json"]),
            "req": msgs.reqs(),
            "bad": BAD,
            "b64": st.booleans(),
            "version": st.booleans(),
        }
    )


def test_bad(c: dict, rec) -> None:
    from .p10 import debatable, reference

    import base64

    codec, bad = c["codec"], c["bad"]
    payload = msgs.ref_encode(codec, msgs.g_req(c["req"])) or b'{"text":"x"}'
    b64 = c["b64"]
    enc = None
    kind = bad[0]
    if kind == "undecodable":
        payload = bad[1]
        if msgs.try_decode(codec, payload, msgs.G.Req) is not None:
            rec.label("decodable after all")
            return
    if kind == "corrupt":
        enc, payload = bad[1], bad[2]
        if reference(enc, payload) is not None or debatable(enc, payload):
            return
    b64 = b64 or kind.startswith("b64") or (codec == "proto")
    text = base64.urlsafe_b64encode(payload).decode().rstrip("=") if b64 else wire.query_encode(payload)
    if kind == "b64-junk":
        i = bad[1] % (len(text) + 1)
        text = text[:i] + bad[2] + text[i:]
    elif kind == "b64-length":
        text = text[: len(text) // 4 * 4] + bad[1]
    elif kind == "b64-inner-pad":
        if len(text) < 2:
            return
        i = 1 + bad[1] % (len(text) - 1)
        text = text[:i] + "=" + text[i:]
    params = {"message": text, "encoding": codec}
    if b64:
        params["base64"] = "1"
    if enc:
        params["compression"] = enc
    if c["version"]:
        params["connect"] = "v1"
    if kind == "drop":
        del params[bad[1]]
    elif kind in ("encoding", "compression"):
        params[kind] = bad[1].replace(" ", "%20")
    elif kind == "version":
        params["connect"] = bad[1]
    elif kind == "no-query":
        params = {}
    q = "&".join(f"{k}={v}" for k, v in params.items())
    svc = rpc.Script(ress=[{"text": "r"}])
    app = rpc.make_app(c["flavour"], svc, compressions=rpc.comps(ALGOS))
    out = http.call(c["flavour"], app, "GET", rpc.path("get"), [], query=q)
    check(not svc.seen, "handler-ran-on-malformed-get", f"{kind}: ?{q} -> {svc.seen and svc.seen[0].reqs}")
    check(out.complete, "response-incomplete", lambda: f"?{q}: {out.exc!r}")
    check(out.status >= 400, "malformed-get-accepted", f"?{q} -> {out.status}")
    rec.label(f"{c['flavour']}/{kind}")
    rec.nontrivial(f"{c['flavour']} {kind}")


PARTS = [
    Part("client", client_strategy, test_client, quick=1600, shards=3),
    Part("raw", raw_strategy, test_raw, quick=3500, shards=3),
    Part("malformed", bad_strategy, test_bad, quick=3000, shards=2),
    Part("lots-client", lots.strategy(client_strategy), lots.test(test_client), quick=160, shards=2),
    Part("lots-raw", lots.strategy(raw_strategy), lots.test(test_raw), quick=240, shards=2),
]
