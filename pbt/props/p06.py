"""P06: client requests follow the wire protocols exactly."""

from __future__ import annotations

import base64
import re
from urllib.parse import parse_qsl, urlsplit

from hypothesis import strategies as st

from connectrpc.request import Headers

from .. import http, interop, lots, msgs, rpc, vclock, wire
from ..core import Part, check
from ..gen import vt_pb2 as G

PID = "P06"
LEVEL = "exploration"
RULE = (
    "non-trivial: the request carries compression, a timeout, caller headers, a GET query, several "
    "messages or a non-default message encoding"
)
ASSUMPTIONS = [
    "caller headers do not use names owned by HTTP or by the protocol",
    "timeouts are positive",
]
QUICK_BUDGET = 100.0

ADDRESS = st.sampled_from(
    ["http://localhost", "https://api.example.com", "http://10.0.0.1:8080", "https://h.test:8443/api", "http://h/a/b", "http://[::1]:9000"]
)
UNIT_MS = {"H": 3_600_000, "M": 60_000, "S": 1000, "m": 1, "u": 1e-3, "n": 1e-6}
TIMEOUT = st.one_of(
    st.none(),
    st.integers(1, 100_000),
    st.sampled_from([1, 99_999_999, 100_000_000, 100_000_001, 9_999_999_999, 10_000_000_000, 360_000_000_000_000, 10**16]),
    st.integers(1, 10**15),
)


def strategy() -> st.SearchStrategy:
    def build(kind: str) -> st.SearchStrategy:
        multi = kind in ("client", "bidi")
        return st.fixed_dictionaries(
            {
                "flavour": st.sampled_from(["async", "sync"]),
                "rt": st.sampled_from(["py", "py", "google"]),
                "kind": st.just(kind),
                "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
                "codec": st.sampled_from(["proto", "json"]),
                "send": rpc.ENCODINGS,
                "accept": rpc.COMP_SET,
                "address": ADDRESS,
                "reqs": st.lists(msgs.reqs(9000), min_size=0 if multi else 1, max_size=4 if multi else 1),
                "headers": st.lists(st.tuples(st.one_of(rpc.HEADER_NAME, st.sampled_from(["X-Mixed-Case", "User-Agent"])), rpc.HEADER_VALUE), max_size=4),
                "hform": st.sampled_from(["none", "headers", "dict"]),
                "timeout": TIMEOUT,
                "default_timeout": TIMEOUT,
                "use_get": st.booleans() if kind == "get" else st.just(False),
            }
        )

    return st.sampled_from(rpc.KINDS).flatmap(build)


def check_timeout(protocol: str, header: list[str], want: int | None) -> None:
    if want is None:
        check(not header, "timeout-header-without-timeout", header)
        return
    check(len(header) == 1, "timeout-header-count", f"{header} for {want}")
    if protocol == "connect":
        check(re.fullmatch(r"[0-9]{1,10}", header[0]), "timeout-header-format", header[0])
        got = int(header[0])
    else:
        m = re.fullmatch(r"([0-9]{1,8})([HMSmun])", header[0])
        check(m, "timeout-header-format", header[0])
        got = int(m[1]) * UNIT_MS[m[2]]  # type: ignore[index]
    check(got <= want, "timeout-longer-than-requested", f"{header[0]} for {want} ms")
    # The coarsest form a protocol forces: 8 (10) digits, so at least 7 (9) significant ones -
    # or its largest expressible value.
    limit = 9_999_999_999 if protocol == "connect" else 99_999_999 * 3_600_000
    least = min(want, limit)
    slack = 0 if protocol == "connect" else least * 1e-3
    check(got >= least - slack, "timeout-much-shorter-than-requested", f"{header[0]} for {want} ms")


def test(c: dict, rec) -> None:
    kind, protocol, rt = c["kind"], c["protocol"], c["rt"]
    reqs = [rpc.mk_req(rt, r) for r in c["reqs"]]
    unary = kind in ("unary", "get")
    stream = not (protocol == "connect" and unary)
    is_get = c["use_get"] and protocol == "connect"
    hs = c["headers"] if c["hform"] != "none" else []
    if c["hform"] == "headers":
        given = Headers(hs)
        before = list(given.allitems())
    elif c["hform"] == "dict":
        given = dict(hs)
        before = dict(given)
        low: dict = {}
        for k, v in given.items():
            low[k.lower()] = v
        hs = list(low.items())
    else:
        given, before = None, None

    res = rpc.mk_res(rt, {"text": "r"})
    canned_h = [("content-type", wire.content_type(protocol, c["codec"], stream))]
    payload = msgs.ref_encode(c["codec"], msgs.g_res({"text": "r"}))
    if stream:
        end, tr = wire.end_of_stream(protocol, None, [])
        canned = http.Canned(200, canned_h, [wire.env(0, payload) + end], tr)
    else:
        canned = http.Canned(200, canned_h, [payload])
    kw = dict(
        protocol=rpc.PROTOCOLS[protocol], codec=rpc.codec(c["codec"], rt),
        send_compression=rpc.comp(c["send"]) if c["send"] else None,
        accept_compression=rpc.comps(c["accept"]), timeout_ms=c["default_timeout"],
    )
    call = dict(rt=rt, use_get=c["use_get"] and kind == "get", headers=given, timeout_ms=c["timeout"])
    if c["flavour"] == "async":
        t = http.CannedAsync(lambda _s: canned)
        r = vclock.run(lambda: rpc.acall(rpc.aclient(t, c["address"], **kw), kind, reqs, **call)).value
    else:
        t = http.CannedSync(lambda _s: canned)
        with vclock.frozen():
            r = rpc.scall(rpc.sclient(t, c["address"], **kw), kind, reqs, **call)
    check(r.error is None, "call-failed", lambda: repr(r.error))
    check(r.messages == [msgs.norm(res)], "response-differs", r.messages)
    check(len(t.requests) == 1, "request-count", len(t.requests))
    s = t.requests[0]
    u = urlsplit(s.url)
    base = urlsplit(c["address"])
    check((u.scheme, u.netloc) == (base.scheme, base.netloc), "url-authority", s.url)
    check(u.path == base.path + rpc.path(kind), "url-path", s.url)
    check(s.method == ("GET" if is_get else "POST"), "http-method", s.method)

    def get(name: str) -> list[str]:
        return [v for k, v in s.headers if k.lower() == name]

    # caller headers
    names = [k.lower() for k, _ in hs]
    for n in set(names):
        want = [v for k, v in hs if k.lower() == n]
        check(get(n) == want, "caller-header-changed", lambda: f"{n}: {get(n)} want {want}")
    if c["hform"] == "headers":
        check(list(given.allitems()) == before, "caller-header-object-modified", lambda: repr(given))
    elif c["hform"] == "dict":
        check(given == before, "caller-header-object-modified", lambda: repr(given))
    if "user-agent" not in names:
        check(get("user-agent") and get("user-agent")[0], "user-agent", get("user-agent"))

    # protocol headers
    enc_h, acc_h = wire.enc_headers(protocol, stream)
    accept = ["gzip"] if c["accept"] is None else c["accept"]
    offered = [x.strip() for v in get(acc_h) for x in v.split(",") if x.strip()]
    check([x for x in offered if x != "identity"] == accept, "accept-encoding", f"{offered} want {accept}")
    timeout = c["timeout"] if c["timeout"] is not None else c["default_timeout"]
    check_timeout(protocol, get("connect-timeout-ms" if protocol == "connect" else "grpc-timeout"), timeout)
    owned = {"connect-protocol-version", "connect-timeout-ms", "connect-content-encoding", "connect-accept-encoding",
             "grpc-timeout", "grpc-encoding", "grpc-accept-encoding", "content-encoding"}
    if protocol == "connect":
        check(get("connect-protocol-version") == ["1"], "protocol-version", get("connect-protocol-version"))
        allowed = {"connect-protocol-version", "connect-timeout-ms", enc_h, acc_h}
    else:
        check(get("te") == ["trailers"], "te", get("te"))
        allowed = {"grpc-timeout", enc_h, acc_h}
    for n in owned - allowed:
        check(not get(n), "foreign-protocol-header", f"{n}: {get(n)}")
    check(all(len(get(n)) <= 1 for n in allowed), "duplicate-protocol-header", s.headers)

    algo = c["send"] or "identity"
    want = [msgs.nreq(q) for q in c["reqs"]]
    if is_get:
        check(not get("content-type") and not get("content-encoding"), "get-body-headers", s.headers)
        check(not s.body, "get-with-body", s.body)
        q = parse_qsl(u.query, keep_blank_values=True, strict_parsing=True)
        check(len({k for k, _ in q}) == len(q), "get-duplicate-parameter", u.query)
        d = dict(q)
        check(set(d) <= {"connect", "base64", "compression", "encoding", "message"}, "get-parameters", u.query)
        check(d.get("connect") == "v1", "get-connect-version", u.query)
        check(d.get("encoding") == c["codec"], "get-encoding", u.query)
        raw = d["message"]
        if d.get("base64") == "1":
            check(re.fullmatch(r"[A-Za-z0-9_-]*={0,2}", raw), "get-base64", raw)
            data = base64.urlsafe_b64decode(raw.rstrip("=") + "=" * (-len(raw.rstrip("=")) % 4))
        else:
            data = raw.encode()
        check((d.get("compression") or "identity") == algo, "get-compression", u.query)
        got = [msgs.norm(msgs.ref_decode(c["codec"], wire.decompress(algo, data), G.Req))]
    else:
        check(get("content-type") == [wire.content_type(protocol, c["codec"], stream)], "content-type", get("content-type"))
        check((get(enc_h) or ["identity"]) == [algo], "encoding-header", f"{get(enc_h)} want {algo}")
        if stream:
            got = []
            for flags, data in wire.parse_envs(s.body):
                check(flags == (1 if algo != "identity" else 0), "envelope-flags", flags)
                got.append(msgs.norm(msgs.ref_decode(c["codec"], wire.decompress(algo, data), G.Req)))
        else:
            got = [msgs.norm(msgs.ref_decode(c["codec"], wire.decompress(algo, s.body), G.Req))]
    check(got == want, "request-messages-differ", lambda: f"{got} want {want}")
    rec.label(f"{c['flavour']}/{protocol}/{kind}")
    rec.label(f"timeout:{'set' if timeout else 'none'}")
    if is_get:
        rec.nontrivial("get")
    elif c["send"]:
        rec.nontrivial(f"compressed {protocol}")
    elif timeout:
        rec.nontrivial(f"timeout {protocol}")
    elif hs:
        rec.nontrivial("headers")
    elif len(reqs) > 1 or c["codec"] == "json":
        rec.nontrivial("messages")


PARTS = [Part("requests", strategy, test, quick=6000, shards=6),
    Part("grpcio", interop.client_strategy, interop.client_test, quick=600, shards=2),
    Part("lots", lots.strategy(strategy), lots.test(test), quick=240, shards=3),
]
