"""P13: requests are routed and admitted exactly as documented."""

from __future__ import annotations

from typing import Any

from hypothesis import strategies as st

from connectrpc.codec import proto_binary_codec, proto_json_codec
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.server import ConnectASGIApplication, ConnectWSGIApplication, Endpoint, EndpointSync

from .. import http, msgs, rpc, vclock, wire
from ..core import Part, check, mostly

PID = "P13"
LEVEL = "exploration"
RULE = (
    "non-trivial: the request is a near miss (right endpoint but wrong method, type or version; or a path that "
    "resembles a registered one), or is admitted under a mount prefix, with content-type parameters or case, "
    "with a custom codec or after other requests to the same application"
)
ASSUMPTIONS = [
    "the reference is a decision table over path, method, content type and version, written from the documentation",
    "whether a refused request with both an unsupported version and an unsupported codec names the one or the other is left open",
    "gRPC content types with parameters or upper case, and a WSGI mount below another prefix, are left open",
]
QUICK_BUDGET = 75.0

SERVICES = ["vt.v1.Vt", "a.S", "vt.v1.VtX", "S", "vt.v1.vt"]
NAMES = ["Unary", "Get", "GetAll", "Un", "unary", "Vt", "S"]
METHODS = ["POST", "POST", "POST", "GET", "GET", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "FOO", "TRACE"]
ROOTS = ["", "", "", "/api", "/a.S", "/vt.v1.Vt", "/S", "/vt.v1.Vt/Unary"]
CODECS = ["proto", "json", "x-json", "jsonx"]


class NamedCodec:
    def __init__(self, name: str) -> None:
        self._name = name
        self._c = proto_json_codec()

    def name(self) -> str:
        return self._name

    def encode(self, message: Any) -> bytes:
        return self._c.encode(message)

    def decode(self, data: Any, message_class: Any) -> Any:
        return self._c.decode(data, message_class)


def mk_codec(name: str) -> Any:
    return {"proto": proto_binary_codec, "json": proto_json_codec}.get(name, lambda: NamedCodec(name))()


ENTRY = st.tuples(
    st.sampled_from(SERVICES), st.sampled_from(NAMES), st.sampled_from(["unary", "unary", "client", "server", "bidi"]),
    st.sampled_from(["UNKNOWN", "NO_SIDE_EFFECTS", "NO_SIDE_EFFECTS", "IDEMPOTENT"]),
)
PATHMUT = st.one_of(
    st.just(("exact",)), st.just(("exact",)), st.just(("exact",)), st.just(("exact",)),
    st.sampled_from(
        [("slash",), ("lower",), ("upper",), ("dup",), ("nolead",), ("chop",), ("more",), ("empty",), ("root",),
         ("service",), ("enc",), ("x",), ("tail",), ("space",), ("noslash",)]
    ),
    st.tuples(st.just("swap"), st.sampled_from(SERVICES), st.sampled_from(NAMES)),
)
BAD_TYPES = [
    "", "text/plain", "application/", "application/x-www-form-urlencoded", "application/protobuf",
    "application/connect+protobuf", "application/grpc+xml", "application/grpc-web+xml", "application/grpcx",
    "application/grpc-webx", "application/connect", "application/connect+", "application/proto2", "image/proto",
    "application/grpc+", "application/grpc-web+", "application/connect+connect+json", "xapplication/json",
    "application/jsonp", "application/ json", "application/connect+grpc", "application/grpc-web-text",
    "application/json/x", "connect+json", "application/json+connect", "multipart/form-data; boundary=json",
]
CTYPE = st.one_of(
    st.tuples(
        st.just("ok"), st.sampled_from(["connect", "connect", "grpc", "grpcweb"]), st.sampled_from(CODECS), st.integers(0, 6)
    ),
    st.tuples(
        st.just("ok"), st.sampled_from(["connect", "connect", "grpc", "grpcweb"]), st.sampled_from(["proto", "json"]), st.just(0)
    ),
    st.tuples(st.just("wrong-shape"), st.sampled_from(CODECS)),
    st.tuples(st.just("bad"), st.sampled_from(BAD_TYPES)),
)
REQUEST = st.fixed_dictionaries(
    {
        "target": st.integers(0, 7),
        "path": PATHMUT,
        "root": st.sampled_from(ROOTS),
        "mount": st.sampled_from(["full", "full", "stripped", "service", "beside"]),
        "method": st.sampled_from(METHODS),
        "ctype": CTYPE,
        "version": st.sampled_from([None, None, "1", "1", "2", "", "1.0", "0", " 1x", "v1"]),
        "bare": st.booleans(),
        "noise": rpc.NOISE,
    }
)


def strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "flavour": st.sampled_from(["asgi", "wsgi"]),
            "entries": mostly(9, st.lists(ENTRY, min_size=1, max_size=6, unique_by=lambda e: e[:2]), st.lists(ENTRY, min_size=7, max_size=20, unique_by=lambda e: e[:2])),
            "codecs": st.one_of(st.none(), st.none(), st.lists(st.sampled_from(CODECS), min_size=1, max_size=4, unique=True)),
            "requests": mostly(9, st.lists(REQUEST, min_size=1, max_size=4), st.lists(REQUEST, min_size=5, max_size=24)),
        }
    )


def build(c: dict, ran: list) -> Any:
    asgi = c["flavour"] == "asgi"
    base = "/" + c["entries"][0][0]
    eps = {}
    for service, name, kind, idem in c["entries"]:
        info = MethodInfo(
            name=name, service_name=service, input=rpc.P.Req, output=rpc.P.Res,
            idempotency_level=IdempotencyLevel[idem],
        )
        eps[f"/{service}/{name}"] = getattr(Endpoint if asgi else EndpointSync, rpc.ASYNC_FACTORY[kind])(
            method=info, function=handler(asgi, kind, (service, name), ran)
        )
    kw = {} if c["codecs"] is None else {"codecs": [mk_codec(n) for n in c["codecs"]]}

    class App(ConnectASGIApplication if asgi else ConnectWSGIApplication):  # type: ignore[misc]
        @property
        def path(self) -> str:
            return base

    return App(service=None, endpoints=lambda _: eps, **kw) if asgi else App(endpoints=eps, **kw)


def handler(asgi: bool, kind: str, tag: tuple, ran: list) -> Any:
    res = {"text": "/".join(tag)}
    if asgi:

        async def unary(r: Any, _ctx: Any) -> Any:
            ran.append((tag, kind, msgs.norm(r)))
            return msgs.py_res(res)

        async def client(rs: Any, _ctx: Any) -> Any:
            got = [msgs.norm(r) async for r in rs]
            ran.append((tag, kind, *got))
            return msgs.py_res(res)

        async def server(r: Any, _ctx: Any) -> Any:
            ran.append((tag, kind, msgs.norm(r)))
            yield msgs.py_res(res)

        async def bidi(rs: Any, _ctx: Any) -> Any:
            got = [msgs.norm(r) async for r in rs]
            ran.append((tag, kind, *got))
            yield msgs.py_res(res)
    else:

        def unary(r: Any, _ctx: Any) -> Any:  # type: ignore[misc]
            ran.append((tag, kind, msgs.norm(r)))
            return msgs.py_res(res)

        def client(rs: Any, _ctx: Any) -> Any:  # type: ignore[misc]
            ran.append((tag, kind, *[msgs.norm(r) for r in rs]))
            return msgs.py_res(res)

        def server(r: Any, _ctx: Any) -> Any:  # type: ignore[misc]
            ran.append((tag, kind, msgs.norm(r)))
            yield msgs.py_res(res)

        def bidi(rs: Any, _ctx: Any) -> Any:  # type: ignore[misc]
            ran.append((tag, kind, *[msgs.norm(r) for r in rs]))
            yield msgs.py_res(res)

    return {"unary": unary, "client": client, "server": server, "bidi": bidi}[kind]


def mutate_path(p: str, m: tuple) -> str:
    service, name = p[1:].split("/")
    return {
        "exact": lambda: p, "slash": lambda: p + "/", "lower": p.lower, "upper": p.upper, "dup": lambda: "/" + p,
        "nolead": lambda: p[1:], "chop": lambda: p[:-1], "more": lambda: p + "/" + name, "empty": lambda: "",
        "root": lambda: "/", "service": lambda: "/" + service, "enc": lambda: p.replace(".", "%2E"),
        "x": lambda: p + "X", "tail": lambda: "/" + name, "space": lambda: p + " ",
        "noslash": lambda: f"/{service}{name}", "swap": lambda: f"/{m[1]}/{m[2]}",
    }[m[0]]()


def content_type(spec: tuple, stream: bool) -> str:
    if spec[0] == "bad":
        return spec[1]
    if spec[0] == "wrong-shape":
        return f"application/{'' if stream else 'connect+'}{spec[1]}"
    _, protocol, codec, style = spec
    if protocol != "connect":
        base = "application/grpc" if protocol == "grpc" else "application/grpc-web"
        return base if style == 6 and codec == "proto" else f"{base}+{codec}"
    base = f"application/{'connect+' if stream else ''}{codec}"
    return [base, base.upper(), base + "; charset=utf-8", base + ";charset=UTF-8", base + " ; a=b; c=\"d\"",
            " " + base, base.title() + ";"][style]


def decide(c: dict, endpoints: dict, root: str, path: str, r: dict, ctype: str) -> tuple:
    """The documented decision: ("run", entry, protocol, codec) or ("refuse", status, allow)."""
    codecs = c["codecs"] or ["proto", "json"]
    entry = endpoints.get(path)
    if c["flavour"] == "asgi":
        if entry is None and root:
            entry = endpoints.get(path.removeprefix(root))
    else:
        entry = endpoints.get(path or "/")
        base = "/" + c["entries"][0][0]
        if entry is None and root == base:
            entry = endpoints.get(base + (path or "/"))
    if entry is None:
        return ("refuse", {404}, None)
    _, _, kind, idem = entry
    method = r["method"]
    for protocol, base in (("grpc", "application/grpc"), ("grpcweb", "application/grpc-web")):
        if ctype == base or ctype.startswith(base + "+"):
            if method != "POST":
                return ("refuse", {405}, {"POST"})
            codec = ctype[len(base) + 1 :] if ctype != base else "proto"
            return ("run", entry, protocol, codec) if codec in codecs else ("refuse", {415}, None)
    allowed = {"GET", "POST"} if idem == "NO_SIDE_EFFECTS" and kind == "unary" else {"POST"}
    if method not in allowed:
        return ("refuse", {405}, allowed)
    version_ok = r["version"] in (None, "1")
    if method == "GET":
        codec = query_codec(r)
        if codec not in codecs:
            return ("refuse", {415, 400, 501, 404}, None)
        return ("run", entry, "get", codec) if version_ok else ("refuse", {400}, None)
    norm = ctype.partition(";")[0].strip().lower()
    prefix = "application/" if kind == "unary" else "application/connect+"
    codec = norm[len(prefix) :] if norm.startswith(prefix) else None
    if codec not in codecs:
        return ("refuse", {415} if version_ok else {415, 400}, None)
    return ("run", entry, "connect", codec) if version_ok else ("refuse", {400}, None)


def query_codec(r: dict) -> str:
    return r["ctype"][2] if r["ctype"][0] == "ok" else r["ctype"][1]


PAYLOAD = {"text": "hello"}


def test(c: dict, rec: Any) -> None:
    ran: list = []
    app = build(c, ran)
    endpoints = {f"/{e[0]}/{e[1]}": e for e in c["entries"]}
    asgi = c["flavour"] == "asgi"
    outcomes = []
    for i, r in enumerate(c["requests"]):
        target = c["entries"][r["target"] % len(c["entries"])]
        stream = target[2] != "unary"
        ctype = content_type(r["ctype"], stream)
        p = mutate_path(f"/{target[0]}/{target[1]}", r["path"])
        root = r["root"]
        if r["mount"] == "service":
            root = "/" + target[0]
            if not asgi:
                p = p.removeprefix(root)
        if root and r["mount"] == "beside":
            p = f"/{'z' * (len(root) - 1)}{p}"  # below something else of the same length
        elif asgi and root and r["mount"] != "stripped":
            p = root + p if not p.startswith(root) or r["mount"] == "full" else p
        d = decide(c, endpoints, root, p, r, ctype)
        # the body and query fit what the request would be if admitted
        protocol, codec = (d[2], d[3]) if d[0] == "run" else ("connect", "proto")
        payload = msgs.ref_encode("proto" if codec == "proto" else "json", msgs.g_req(PAYLOAD))
        kind = d[1][2] if d[0] == "run" else target[2]
        _, body = wire.build_request(
            protocol if protocol != "get" else "connect", kind == "unary", codec, [payload]
        )
        headers = [("host", "h"), *r["noise"]]
        if ctype:
            headers.append(("content-type", ctype))
        if r["version"] is not None:
            headers.append(("connect-protocol-version", r["version"]))
        query = ""
        if r["method"] == "GET":
            qc = query_codec(r)
            query = wire.get_query(qc.replace(" ", "%20").replace(";", "%3B"), msgs.ref_encode(
                "proto" if qc == "proto" else "json", msgs.g_req(PAYLOAD)), b64=True)
            body = b""
        before = len(ran)
        with vclock.frozen():
            out = send(c["flavour"], app, r, p, root, headers, body, query)
        new = ran[before:]
        where = f"{r['method']} {root!r} {p!r} {ctype!r} version {r['version']!r} query {query!r}"
        check(out.complete and out.exc is None, "no-proper-response", lambda: f"{where}: {out.exc!r}")
        got = {k: v for k, v in out.headers}
        if d[0] == "refuse":
            check(not new, "handler-ran-for-refused-request", lambda: f"{where}: {new} expected {d}")
            check(out.status in d[1], "refusal-status", lambda: f"{where}: {out.status} expected {d}")
            if d[2] is not None:
                allow = {a.strip() for k, v in out.headers if k == "allow" for a in v.split(",")}
                check(allow == d[2], "allow-header", lambda: f"{where}: {allow} expected {d[2]}")
            if out.status == 400:
                e = wire.parse_error_json(wire.loads(out.body, "error-json"))
                check(e.code == "invalid_argument", "version-error", lambda: f"{where}: {e}")
            outcomes.append(f"{min(d[1])}")
        else:
            _, entry, protocol, codec = d
            tag = (entry[0], entry[1])
            check(
                new == [(tag, entry[2], msgs.nreq(PAYLOAD))], "not-exactly-that-handler",
                lambda: f"{where}: ran {new}, expected {tag}: {out.status} {out.body!r}",
            )
            check(out.status == 200, "admitted-but-not-ok", lambda: f"{where}: {out.status} {out.body!r}")
            res = wire.interpret_response(
                "connect" if protocol == "get" else protocol, entry[2] == "unary", codec, [],
                out.status, out.headers, out.body, out.trailers, entry[2] in ("unary", "client"),
            )
            check(res.error is None and len(res.messages) == 1, "admitted-result", lambda: f"{where}: {res}")
            m = msgs.norm(msgs.ref_decode("proto" if codec == "proto" else "json", res.messages[0], msgs.G.Res))
            check(m == msgs.nres({"text": "/".join(tag)}), "wrong-handler-result", lambda: f"{where}: {m}")
            outcomes.append("run")
        near = r["path"][0] not in ("empty", "root") and (
            d[0] == "refuse" or root or i or r["ctype"][-1] not in (0, "proto") or codec.startswith(("x-", "jsonx"))
        )
        rec.label(f"{c['flavour']}/{outcomes[-1]}/{r['method'] if r['method'] in ('GET', 'POST') else 'other'}")
        if near:
            rec.nontrivial(f"{c['flavour']} {d[0]} {where}")
        del got
    rec.evals(len(c["requests"]))


def send(flavour: str, app: Any, r: dict, p: str, root: str, headers: list, body: bytes, query: str) -> http.HttpOut:
    if flavour == "asgi":
        scope = http.asgi_scope(r["method"], p, query.encode(), headers, root_path=root)
        if r["bare"]:
            # optional members of the scope
            if not root:
                del scope["root_path"]
            for k in ("client", "scheme", "server", "raw_path"):
                del scope[k]
            if not any(k == "content-type" and v.startswith("application/grpc") for k, v in headers):
                del scope["extensions"]
        return http.asgi_call(app, scope, http.body_events([body] if body else []))
    env = http.wsgi_environ(
        r["method"], p, query, headers, http.ChunkedInput([body] if body else []), script_name=root,
        content_length=len(body) if body else None,
    )
    if r["bare"]:
        # variables that would be empty may be missing (PEP 3333)
        for k in ("SCRIPT_NAME", "PATH_INFO", "QUERY_STRING"):
            if not env[k]:
                del env[k]
        for k in ("REMOTE_ADDR", "REMOTE_PORT"):
            env.pop(k, None)
    return http.wsgi_call(app, env)


PARTS = [Part("routing", strategy, test, quick=24000, shards=8)]
