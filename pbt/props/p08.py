"""P08: servers answer every request, however malformed, without misbehaving."""

from __future__ import annotations

import gzip
import re
from typing import Any

from hypothesis import strategies as st

from .. import http, lots, msgs, plugins, rpc, vclock, wire
from ..core import Part, check
from .p10 import debatable, reference

PID = "P08"
LEVEL = "exploration"
RULE = (
    "non-trivial: the request is malformed in a way the reference recognises and still names an existing method, "
    "or a mutated body is still readable as other messages than before the mutation"
)
ASSUMPTIONS = [
    "the reference reading of a request is written from the protocol texts and uses google.protobuf, zlib, brotli and zstandard",
    "left open (any outcome that hands over no wrong message): reserved envelope flags, compressed empty payloads, upper-case or empty encoding names, payloads on which the two protobuf runtimes disagree",
    "the application runs in an HTTP server that delivers only syntactically valid HTTP (one content-length, token header names)",
]
QUICK_BUDGET = 100.0
ALGOS = ["gzip", "br", "zstd"]

BODY_OP = st.one_of(
    st.tuples(st.just("flip"), st.integers(0, 10**6), st.integers(1, 255)),
    st.tuples(st.just("flip"), st.integers(0, 24), st.integers(1, 255)),
    st.tuples(st.just("del"), st.integers(0, 10**6), st.integers(1, 8)),
    st.tuples(st.just("ins"), st.integers(0, 10**6), st.binary(min_size=1, max_size=8)),
    st.tuples(st.just("trunc"), st.integers(0, 10**6)),
    st.tuples(st.just("append"), st.binary(min_size=1, max_size=12)),
    st.tuples(st.just("random"), st.binary(max_size=40)),
    st.tuples(st.just("len"), st.integers(0, 3), st.integers(-6, 6)),
    st.tuples(st.just("len-set"), st.integers(0, 3), st.sampled_from([0, 1, 0x7FFFFFFF, 0xFFFFFFFF, 0x80000000, 1 << 24])),
    st.tuples(st.just("flags"), st.integers(0, 3), st.integers(0, 255)),
    st.tuples(st.just("flags"), st.integers(0, 3), st.sampled_from([0, 1, 1])),
    st.tuples(st.just("dup"), st.integers(0, 3)),
    st.tuples(st.just("drop"), st.integers(0, 3)),
    st.tuples(st.just("payload"), st.integers(0, 3), st.binary(max_size=16)),
    st.tuples(
        st.just("payload"), st.integers(0, 3),
        st.sampled_from([b"", b"{}", b"null", b"[]", b'{"text":1}', b'{"nope":1}', b"\x0a\x01\xff", b"\x0a\x80", b"\xff\xff", b"\x08\x01",
                         b'{"text":"\\ud800"}', b"\x0b", b'{"text":"a","text":"b"}', b"1", b'"', b"\xef\xbb\xbf{}", b"{}x", b'{"at":"x"}',
                         b'{"num":"9223372036854775808"}', b'{"data":"*"}', b"[" * 200, b'{"items":[null]}', b"NaN"]),
    ),
)
TYPES = [
    "application/proto", "application/json", "application/connect+proto", "application/connect+json", "application/grpc",
    "application/grpc+json", "application/grpc-web+proto", "application/grpc-web", "application/xml", "", "text/html",
    "application/json; charset=utf-8", "APPLICATION/PROTO", "application/grpc+", "\xff", "application/connect+\xe9",
]
HEADER_OP = st.one_of(
    st.tuples(st.just("set"), st.just("content-type"), st.sampled_from(TYPES)),
    st.tuples(st.just("drop"), st.just("content-type"), st.just("")),
    st.tuples(
        st.just("set"), st.sampled_from(["content-encoding", "connect-content-encoding", "grpc-encoding"]),
        st.sampled_from(["gzip", "br", "zstd", "identity", "deflate", "x", "GZIP", "", "gzip, br", "gzip ", "\xff"]),
    ),
    st.tuples(
        st.just("set"), st.sampled_from(["connect-timeout-ms", "grpc-timeout"]),
        st.sampled_from(["0", "1", "9999999999", "99999999999", "-1", "1_0", "x", "", "1S", "99999999H", "100000000n", "S", "1.5S", "1 S", "\xb2",
                         "5s", "+1m", "0n", "1m\xe9"]),
    ),
    st.tuples(st.just("set"), st.just("connect-protocol-version"), st.sampled_from(["1", "2", "", "1.0", "\xff"])),
    st.tuples(st.just("set"), st.sampled_from(["accept-encoding", "connect-accept-encoding", "grpc-accept-encoding"]),
              st.sampled_from(["", ",", ",,gzip", "gzip;q=0", "*", "gzip;q=x", ";;;", "br;q=1.0,gzip;q=0.5", "\xff", "identity;q=0", "a" * 3000])),
    st.tuples(st.just("set"), st.sampled_from(["host", "user-agent", "te", "x-other", "cookie", "x-bin-bin", "origin"]),
              st.text(st.characters(min_codepoint=32, max_codepoint=255, blacklist_characters="\x7f"), max_size=12)),
    st.tuples(st.just("set"), st.just("host"), st.sampled_from(["", "[", "[::1", "a:b:c", "h:", ":80", "[::1]:x", "h:99999", "\xff:1", "@"])),
    st.sampled_from(rpc.CLAIMS).map(lambda h: ("set", *h)),
    st.tuples(st.just("set"), st.just("x-other"), st.sampled_from(["\xff\xfe", "\x80", "caf\xe9", "\xc3\xa9"])),
)
LINE_OP = st.one_of(
    st.tuples(st.just("method"), st.sampled_from(["GET", "PUT", "HEAD", "OPTIONS", "BREW", "get", "POST"])),
    st.tuples(st.just("path"), st.sampled_from(["", "/", "//", "/vt.v1.Vt", "/vt.v1.Vt/", "/vt.v1.Vt/Nope", "/vt.v1.Vt/unary", "/\x00", "/é\udcff", "*", "x" * 3000])),
    st.tuples(st.just("kind"), st.sampled_from(rpc.KINDS)),
    st.tuples(st.just("query"), st.sampled_from(["", "a", "message=", "message=%FF&encoding=proto", "&&&", "=", "%", "message=%zz&encoding=json",
                                                 "message={}&encoding=json", "encoding=json&message=%7B%7D&base64=2", "connect=v1",
                                                 "message=e30&base64=1&encoding=json&compression=identity", "message=e30&base64=1&encoding=json&base64=0",
                                                 "message=%7B%7D&encoding=json&compression=", "message=\xff&encoding=json"])),
    st.tuples(st.just("cl"), st.sampled_from(["-", "0", "+1", "-1", "+9", ""])),
)


def strategy() -> st.SearchStrategy:
    return st.sampled_from(rpc.KINDS).flatmap(
        lambda kind: st.fixed_dictionaries(
            {
                "flavour": st.sampled_from(["asgi", "wsgi"]),
                "kind": st.just(kind),
                "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
                "codec": st.sampled_from(["proto", "json"]),
                "enc": rpc.ENCODINGS,
                "mask": st.lists(st.booleans(), min_size=1, max_size=3),
                "accept": rpc.COMP_SET,
                "srv": st.sampled_from([None, None, ALGOS, ALGOS, ALGOS, ALGOS, []]),
                "enc_ok": st.sampled_from([True, True, True, False]),
                "get": st.booleans(),
                "reqs": st.lists(msgs.reqs(600), max_size=3) if kind in ("client", "bidi") else st.lists(msgs.reqs(600), min_size=1, max_size=1),
                "ops": st.lists(st.one_of(BODY_OP, BODY_OP, HEADER_OP, LINE_OP), max_size=3),
                "plan": rpc.PLAN,
                "trailing_empty": st.booleans(),
                "http1": st.booleans(),
            }
        )
    )


def body_op(data: bytes, op: tuple, framed: bool) -> bytes:
    t = op[0]
    if t == "random":
        return op[1]
    if t == "append":
        return data + op[1]
    if t in ("flip", "del", "ins", "trunc"):
        if not data:
            return op[2] if t == "ins" else data
        i = op[1] % len(data)
        if t == "flip":
            return data[:i] + bytes([data[i] ^ op[2]]) + data[i + 1 :]
        if t == "del":
            return data[:i] + data[i + op[2] :]
        return data[:i] + op[2] + data[i:] if t == "ins" else data[:i]
    if not framed:
        return op[2] if t == "payload" else data
    frames = []
    i = 0
    while len(data) - i >= 5:
        n = int.from_bytes(data[i + 1 : i + 5], "big")
        frames.append(data[i : i + 5 + n])
        i += 5 + n
    rest = data[i:]
    if not frames:
        return data
    k = op[1] % len(frames)
    f = frames[k]
    n = int.from_bytes(f[1:5], "big")
    if t == "len":
        frames[k] = f[:1] + min(max(0, n + op[2]), 2**32 - 1).to_bytes(4, "big") + f[5:]
    elif t == "len-set":
        frames[k] = f[:1] + op[2].to_bytes(4, "big") + f[5:]
    elif t == "flags":
        frames[k] = bytes([op[2]]) + f[1:]
    elif t == "dup":
        frames.insert(k, f)
    elif t == "drop":
        del frames[k]
    elif t == "payload":
        frames[k] = wire.env(0, op[2])
    return b"".join(frames) + rest


# -- the reference reading ------------------------------------------------------------------------


class View:
    """What a request means: refused outright, or a list of message alternatives and how it ends."""

    def __init__(self) -> None:
        self.refuse: str | None = None
        self.kind: str | None = None
        self.protocol = "connect"
        self.msgs: list[set] = []
        self.end = "complete"  # or "bad" (must be an error), "open"
        self.internal_ok = False
        self.codec = "proto"


def decode(codec: str, data: bytes, v: View) -> bool:
    """Appends the message; False when the payload does not decode (or is in dispute)."""
    g = msgs.try_decode(codec, data, msgs.G.Req)
    try:
        p = msgs.norm(rpc.codec(codec).decode(data, rpc.P.Req))
    except Exception:  # noqa: BLE001
        p = None
    alts = {x for x in (g, p) if x is not None}
    if not alts:
        v.end = "bad"
        return False
    v.msgs.append(alts)
    if len(alts) == 1 and (g is None or p is None):
        v.end = "open"
        return False
    return True


def view(c: dict, req: dict) -> View:
    v = View()
    h: dict[str, str] = dict(req["headers"])
    kind = next((k for k in rpc.KINDS if rpc.path(k) == req["path"]), None)
    if kind is None:
        v.refuse = "path"
        return v
    v.kind = kind
    unary_method = kind in ("unary", "get")
    ctype = h.get("content-type", "")
    codecs = ("proto", "json")
    for protocol, base in (("grpc", "application/grpc"), ("grpcweb", "application/grpc-web")):
        if ctype == base or ctype.startswith(base + "+"):
            v.protocol = protocol
            v.codec = ctype[len(base) + 1 :] if ctype != base else "proto"
    get = False
    if v.protocol == "connect":
        if req["method"] != "POST":
            if kind != "get" or req["method"] != "GET":
                v.refuse = "method"
                return v
            get = True
        if h.get("connect-protocol-version", "1") != "1":
            v.refuse = "version"
        t = h.get("connect-timeout-ms")
        if t and not re.fullmatch("[0-9]{1,10}", t):
            v.refuse = "timeout"
        if not get:
            norm = ctype.partition(";")[0].strip().lower()
            prefix = "application/" if unary_method else "application/connect+"
            v.codec = norm[len(prefix) :] if norm.startswith(prefix) else "?"
    else:
        if req["method"] != "POST":
            v.refuse = "method"
        t = h.get("grpc-timeout")
        if t and not re.fullmatch("[0-9]{1,8}[HMSmun]", t):
            v.refuse = "timeout"
    if v.refuse:
        return v
    if not get and v.codec not in codecs:
        v.refuse = "codec"
        return v
    supported = ["gzip"] if c["srv"] is None else c["srv"]
    if get:
        view_get(v, req["query"], supported)
        return v
    unary = unary_method and v.protocol == "connect"
    name = {"grpc": "grpc-encoding", "grpcweb": "grpc-encoding"}.get(
        v.protocol, "content-encoding" if unary else "connect-content-encoding"
    )
    enc = h.get(name, "identity")
    if enc not in ("identity", *supported):
        if enc.lower() in ("", "identity", *supported) or not enc.strip() or enc.strip() in supported:
            v.end = "open"
            if enc.strip() == "":
                v.msgs = []
                view_body(v, "identity", unary, req)
            else:
                view_body(v, enc.strip().lower(), unary, req)
            if v.end != "bad":
                v.end = "open"
            return v
        v.refuse = "encoding"
        return v
    view_body(v, enc, unary, req)
    return v


def view_body(v: View, enc: str, unary: bool, req: dict) -> None:
    body = req["body"]
    if unary:
        if req["cl"] is not None and req["flavour"] == "wsgi":
            n = req["cl"]
            if isinstance(n, int) and n > 0:
                if n > len(body):
                    v.end = "bad"
                    return
                body = body[:n]
            elif not isinstance(n, int) or n < 0:
                v.end = "open"
        if enc != "identity":
            if not body:
                v.end = "open"
                decode(v.codec, body, v)
                v.end = "open"
                return
            plain = reference(enc, body)
            if debatable(enc, body):
                decode(v.codec, gzip.decompress(body), v)
                v.end = "open"
                return
            if plain is None:
                v.end = "bad"
                return
            body = plain
        was = v.end
        decode(v.codec, body, v)
        if was == "open" and v.end == "complete":
            v.end = "open"
        return
    i = 0
    while i < len(body):
        if len(body) - i < 5:
            v.end = "bad"
            return
        flags, n = body[i], int.from_bytes(body[i + 1 : i + 5], "big")
        data = body[i + 5 : i + 5 + n]
        if len(data) < n:
            v.end = "bad"
            return
        i += 5 + n
        if flags & ~1:
            # reserved flags: may be refused or ignored
            v.end = "open"
            v.msgs.append(set())
            return
        if flags & 1:
            if enc == "identity":
                v.end = "bad"
                v.internal_ok = True
                return
            if not data:
                v.end = "open"
                v.msgs.append(set())
                return
            plain = reference(enc, data)
            if debatable(enc, data):
                decode(v.codec, gzip.decompress(data), v)
                v.end = "open"
                return
            if plain is None:
                v.end = "bad"
                return
            data = plain
        if not decode(v.codec, data, v):
            return


def view_get(v: View, query: str, supported: list) -> None:
    import base64
    from urllib.parse import unquote_to_bytes

    params: dict[str, bytes] = {}
    dup = False
    for part in query.encode("latin-1").split(b"&"):
        if not part:
            continue
        k, _, val = part.partition(b"=")
        name = unquote_to_bytes(k.replace(b"+", b" ")).decode("latin-1")
        if name in params:
            dup = True
            continue
        params[name] = unquote_to_bytes(val.replace(b"+", b" "))
    codec = params.get("encoding", b"").decode("latin-1")
    if "message" not in params or codec not in ("proto", "json") or params.get("connect", b"v1") != b"v1":
        v.refuse = "query"
        return
    v.codec = codec
    data = params["message"]
    if params.get("base64", b"0") == b"1":
        text = data.rstrip(b"=")
        if re.search(rb"[^A-Za-z0-9_\-=+/]", data) or len(text) % 4 == 1 or b"=" in text:
            v.refuse = "base64"
            return
        data = base64.urlsafe_b64decode(text + b"=" * (-len(text) % 4))
    enc = params.get("compression", b"identity").decode("latin-1")
    if enc not in ("identity", *supported):
        if enc == "":
            decode(codec, data, v)
            v.end = "open"
        else:
            v.refuse = "compression"
        return
    if enc != "identity":
        if not data:
            decode(codec, data, v)
            v.end = "open"
            return
        plain = reference(enc, data)
        if debatable(enc, data):
            decode(codec, gzip.decompress(data), v)
            v.end = "open"
            return
        if plain is None:
            v.refuse = "compressed"
            return
        data = plain
    if dup or any(b > 127 for b in query.encode("latin-1")):
        decode(codec, data, v)
        if v.end == "complete":
            v.end = "open"
            if any(b > 127 for b in query.encode("latin-1")):
                v.msgs[-1] = set()
        return
    decode(codec, data, v)


BLAME = {"invalid_argument", "unimplemented", "resource_exhausted", "out_of_range", "failed_precondition"}


def test(c: dict, rec: Any) -> None:
    flavour = c["flavour"]
    if c["enc_ok"] and c["enc"] not in (["gzip"] if c["srv"] is None else c["srv"]):
        c = {**c, "enc": None}
    unary = c["kind"] in ("unary", "get") and c["protocol"] == "connect"
    payloads = [msgs.ref_encode(c["codec"], msgs.g_req(r)) for r in c["reqs"]]
    headers, body = wire.build_request(
        c["protocol"], unary, c["codec"], payloads, encoding=c["enc"], accept=c["accept"], compress_mask=c["mask"]
    )
    req: dict = {"flavour": flavour, "method": "POST", "path": rpc.path(c["kind"]), "query": "", "body": body, "cl": "auto"}
    hs = dict(headers)
    line = []
    for op in c["ops"]:
        t = op[0]
        if t == "set":
            hs[op[1]] = op[2]
        elif t == "drop" and len(op) == 3:
            hs.pop(op[1], None)
        elif t == "method":
            req["method"] = op[1]
            if op[1] == "GET" and payloads and c["kind"] == "get" and not req["query"]:
                req["query"] = wire.get_query(c["codec"], payloads[0], compression=c["enc"], b64=True)
        elif t == "path":
            req["path"] = op[1]
        elif t == "kind":
            req["path"] = rpc.path(op[1])
        elif t == "query":
            req["query"] = op[1]
        elif t == "cl":
            line.append(op[1])
        else:
            req["body"] = body_op(req["body"], op, not unary)
    body = req["body"]
    if c["get"] and c["kind"] == "get" and unary and req["method"] == "POST":
        req["method"] = "GET"
        if not any(o[0] == "query" for o in c["ops"]):
            n = sum(map(len, c["plan"])) if c["plan"] and isinstance(c["plan"][0], list) else sum(c["plan"])
            req["query"] = wire.get_query(c["codec"], b"", compression=c["enc"], raw=body, b64=n % 3 > 0, style=n % 5, order=n)
        body = req["body"] = b""
    req["headers"] = list(hs.items())
    ctype = hs.get("content-type", "")
    stream_type = ctype.startswith(("application/connect+", "application/grpc"))
    req["cl"] = None if stream_type else len(body)
    for x in line:
        if x in ("-", ""):
            req["cl"] = None
        elif x == "0":
            req["cl"] = 0
        elif isinstance(req["cl"], int):
            req["cl"] += int(x)
    if isinstance(req["cl"], int) and req["cl"] < 0:
        req["cl"] = 0
    if req["cl"] == 0 and body:
        req["cl"] = None
    v = view(c, req)

    svc = rpc.Script(ress=[{"text": "r"}])
    app = rpc.make_app(flavour, svc, compressions=rpc.comps(c["srv"]))
    where = f"{flavour} {req['method']} {req['path'][:80]!r} ?{req['query']} {req['headers']} cl={req['cl']} {body[:120]!r}"
    chunks = http.split(body, c["plan"])
    with vclock.frozen():
        if flavour == "asgi":
            scope = http.asgi_scope(
                req["method"], req["path"], req["query"].encode("latin-1"), (), http_version="1.1" if c["http1"] else "2"
            ) if "\udcff" not in req["path"] else http.asgi_scope(req["method"], "/x", b"", ()) | {"path": req["path"]}
            scope["headers"] = [(k.encode(), x.encode("latin-1")) for k, x in req["headers"]]
            out = http.asgi_call(app, scope, http.body_events(chunks, trailing_empty=c["trailing_empty"]))
        else:
            env = http.wsgi_environ(
                req["method"], req["path"].encode("utf-8", "surrogateescape").decode("latin-1"), req["query"],
                req["headers"], http.ChunkedInput(chunks), content_length=req["cl"],
                server_protocol="HTTP/1.1" if c["http1"] else "HTTP/2",
            )
            out = http.wsgi_call(app, env)
    check(out.exc is None, "application-raised", lambda: f"{where}: {out.exc!r}")
    check(out.complete, "incomplete-response", lambda: f"{where}: {out.log}")
    check(not out.leaked and not out.unhandled, "left-overs", lambda: f"{where}: {out.leaked} {out.unhandled}")
    check(len(svc.seen) <= 1, "handler-ran-twice", where)
    seen = svc.seen[0] if svc.seen else None
    if seen is not None:
        check(v.refuse is None, "handler-ran-for-refused-request", lambda: f"{where}: {v.refuse}: {seen.reqs}")
        check(seen.kind == v.kind, "wrong-handler", lambda: f"{where}: {seen.kind} not {v.kind}")
        for i, m in enumerate(seen.reqs):
            if v.end == "open" and (i >= len(v.msgs) or not v.msgs[i]):
                break
            check(i < len(v.msgs) and m in v.msgs[i], "handler-got-other-message",
                  lambda: f"{where}: message {i} {m}, the bytes say {v.msgs[i:i + 1]} ({v.end})")
    # the answer
    ok, code, what = outcome(v, out, c, hs)
    single = v.kind in ("unary", "get", "server")
    if v.refuse or v.end == "bad" or (v.end == "complete" and single and len(v.msgs) != 1):
        state = v.refuse or v.end
        check(not ok, "success-for-malformed-request", lambda: f"{where}: {state} answered {what}")
        if single:
            check(seen is None, "handler-ran-without-message", lambda: f"{where}: {state}: {seen.reqs}")
        elif seen is not None:
            check(not seen.ended, "normal-end-of-malformed-stream", lambda: f"{where}: {state} {seen.reqs}")
        allowed = BLAME | ({"internal"} if v.internal_ok else set())
        check(code is None or code in allowed, "error-does-not-blame-the-request", lambda: f"{where}: {state} answered {what}")
        check(code is not None or 400 <= out.status < 500, "error-does-not-blame-the-request", lambda: f"{where}: {state} answered {what}")
        rec.label(f"{flavour}/{v.protocol}/{state}")
        if v.kind is not None:
            rec.nontrivial(where)
    elif v.end == "complete":
        check(seen is not None and len(seen.reqs) == len(v.msgs), "readable-request-not-handled", lambda: f"{where}: {what} {seen and seen.reqs}")
        check(ok, "readable-request-refused", lambda: f"{where}: {what}")
        rec.label(f"{flavour}/{v.protocol}/run")
        if any(o[0] not in ("set", "drop") for o in c["ops"]) and [msgs.nreq(r) for r in c["reqs"]] != seen.reqs:
            rec.nontrivial(where)
    else:
        rec.label(f"{flavour}/open")


def outcome(v: View, out: http.HttpOut, c: dict, hs: dict) -> tuple[bool, str | None, str]:
    """(succeeded, RPC error code or None, description)"""
    text = f"{out.status} {out.headers} {out.body[:200]!r} {out.trailers}"
    if out.status != 200:
        if out.body:
            e = wire.parse_error_json(wire.loads(out.body, "error-json"))
            return False, e.code, text
        return False, None, text
    unary = v.kind in ("unary", "get") and v.protocol == "connect"
    name = wire.enc_headers(v.protocol, not unary)[1]
    accept = [a.strip() for a in hs.get(name, "").split(",")]
    r = wire.interpret_response(
        v.protocol, unary, v.codec, [a.partition(";")[0] for a in accept] + (ALGOS if "*" in accept else []),
        out.status, out.headers, out.body, out.trailers, v.kind in ("unary", "get", "client"),
    )
    return r.error is None, r.error.code if r.error else None, text


PARTS = [
    Part("requests", strategy, test, quick=12000, shards=8),
    Part("plugins", plugins.strategy("server"), plugins.test, quick=3000, shards=3),
    Part("lots", lots.strategy(strategy), lots.test(test), quick=240, shards=3),
]
