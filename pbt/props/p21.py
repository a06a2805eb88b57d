"""P21: generated code exposes every RPC of a service correctly."""

from __future__ import annotations

import asyncio
import contextlib
import importlib
import io
import json
import keyword
import os
import re
import shutil
import sys
import tempfile
import traceback
from typing import Any

from hypothesis import strategies as st

from connectrpc.code import Code
from connectrpc.codec import proto_json_codec
from connectrpc.compat import google_protobuf_json_codec
from connectrpc.compression.gzip import GzipCompression
from connectrpc.errors import ConnectError
from connectrpc.method import IdempotencyLevel
from connectrpc.protocol import ProtocolType

from .. import http, vclock
from ..core import PENDING, Part, Violation, check, mostly

PID = "P21"
LEVEL = "exploration"
RULE = (
    "non-trivial: a name that is a Python keyword, a builtin or a name the generated code uses itself, a nested or "
    "imported message, more than one file or service, a stream, an idempotency level, or a generator option"
)
ASSUMPTIONS = [
    "RPC names of a service do not coincide as Python names, and do not begin with an underscore",
    "the names derived from one service (…Client, …Sync, …) are not names of other services of the file",
    "google.protobuf modules: file paths and message names that Python's import statement can name",
    "protoc (grpc_tools) decides which files are valid; protoc-gen-py and protoc generate the messages",
]
QUICK_BUDGET = 110.0

KEYWORDS = ["class", "import", "from", "None", "True", "async", "lambda", "in", "with", "yield"]
SOFT = ["match", "type", "case", "_x", "print", "property", "list", "str", "int", "super", "self", "object", "dict", "bytes",
        "request", "service", "svc", "headers", "codecs", "use_get", "ctx"]
# names the generated module uses
USED = [
    "Protocol", "Iterable", "Iterator", "AsyncIterator", "AsyncGenerator", "Mapping", "Client", "SyncClient", "ConnectClient",
    "ConnectClientSync", "Code", "Codec", "Compression", "GzipCompression", "ConnectError", "Interceptor", "InterceptorSync",
    "MethodInfo", "IdempotencyLevel", "Headers", "RequestContext", "ProtocolType", "Endpoint", "EndpointSync",
    "ConnectASGIApplication", "ConnectWSGIApplication", "TYPE_CHECKING",
]
PLAIN = ["Greeter", "EchoService", "Svc", "HTTPService", "V1", "A", "lower_case", "Eliza2"]
WORDS = ["Get", "List", "User", "Foo", "Say", "Bar", "HTTP", "URL", "By", "Id", "ID", "X", "Stream"]
RPC = st.one_of(
    st.lists(st.sampled_from(WORDS), min_size=1, max_size=3).map("".join),
    st.lists(st.sampled_from(WORDS), min_size=1, max_size=3).map("".join),
    st.sampled_from(
        ["say", "getFoo", "get_foo", "Get_Foo", "V2Get", "Get2", "A", "a", "ABC", "Import", "Class", "None", "class", "Return", "Lambda", "Print",
         "List", "Property", "Self", "Str", "Request", "Ctx", "Headers", "Service", "Path", "Init", "Close", "ExecuteUnary", "ExecuteServerStream",
         "ExecuteClientStream", "ExecuteBidiStream", "Call", "Enter", "Exit", "Super", "Func", "Interceptors", "Codec", "Type", "Dict", "Object"]
    ),
)
SERVICE = st.one_of(st.sampled_from(PLAIN), st.sampled_from(PLAIN), st.sampled_from(USED), st.sampled_from([*KEYWORDS, *[s for s in SOFT if s != "_x"]]))
MESSAGE = st.one_of(
    st.sampled_from(["Req", "Res", "Foo", "Bar"]),
    st.sampled_from(["Req", "Res", "Foo", "Bar"]),
    st.sampled_from(USED),
    st.sampled_from([*SOFT, *KEYWORDS]),
    st.sampled_from([p + s for p in PLAIN[:3] for s in ("", "Client", "Sync", "ClientSync", "ASGIApplication", "WSGIApplication")]),
)
WKT = ["google.protobuf.Empty", "google.protobuf.StringValue", "google.protobuf.Struct", "google.protobuf.Timestamp"]
WKT_FILES = {"Empty": "empty", "StringValue": "wrappers", "Struct": "struct", "Timestamp": "timestamp"}
DIRS = ["", "a", "acme/v1", "foo-bar/v1", "import/v1", "x/class", "a/b_pb"]
FILES = ["svc", "my-svc", "svc.v1", "class", "svc_pb", "svc_connect", "1st"]
PACKAGES = ["", "a", "acme.v1", "import.v1", "x.class", "Acme", "a.b.c.d"]
KINDS = ["unary", "unary", "client", "server", "bidi"]
IDEM = [None, None, "NO_SIDE_EFFECTS", "NO_SIDE_EFFECTS", "IDEMPOTENT", "IDEMPOTENCY_UNKNOWN"]

METHOD = st.fixed_dictionaries(
    {
        "name": RPC,
        "kind": st.sampled_from(KINDS),
        "input": st.integers(0, 11),
        "output": st.integers(0, 11),
        "idem": st.sampled_from(IDEM),
        "served": st.sampled_from([True, True, True, False]),
        "n": st.integers(0, 3),
    }
)


def norm_name(s: str) -> str:
    return s.replace("_", "").lower()


def messages(name: st.SearchStrategy) -> st.SearchStrategy:
    return st.lists(
        st.tuples(name, st.lists(st.tuples(name, st.lists(name, max_size=1, unique_by=norm_name)), max_size=2, unique_by=lambda m: norm_name(m[0]))),
        min_size=1, max_size=3, unique_by=lambda m: norm_name(m[0]),
    )


def files(google: bool) -> st.SearchStrategy:
    """For google.protobuf, what Python's import statement can name."""
    file = st.fixed_dictionaries({
        "dir": st.sampled_from(["", "a", "acme/v1", "foo-bar/v1"] if google else DIRS),
        "name": st.sampled_from(["svc", "my-svc", "svc_connect", "types"] if google else FILES),
        "package": st.sampled_from(PACKAGES),
        "messages": messages(MESSAGE.filter(lambda n: not keyword.iskeyword(n)) if google else MESSAGE),
        "services": st.lists(
            st.tuples(SERVICE, mostly(9, st.lists(METHOD, max_size=5, unique_by=lambda m: norm_name(m["name"])), st.lists(METHOD, min_size=6, max_size=18, unique_by=lambda m: norm_name(m["name"])))),
            max_size=2, unique_by=lambda s: norm_name(s[0]),
        ),
        # what the generator is asked for: messages of other files are imported only
        "asked": st.sampled_from([True, True, True, False]),
        "syntax": st.sampled_from(["proto3", "proto3", "proto2", "2023"]),
    })
    return st.lists(file, min_size=1, max_size=3, unique_by=lambda f: f["name"])


def gen_strategy() -> st.SearchStrategy:
    def case(runtime: str) -> st.SearchStrategy:
        return st.fixed_dictionaries({
            "runtime": st.just(runtime),
            "io": st.sampled_from([None, None, "async", "sync"]),
            "files": files(runtime == "google"),
            "protocol": st.sampled_from(["connect", "grpc", "grpcweb"]),
            "codec": st.sampled_from([None, "json"]),
            "lifespan": st.booleans(),
            "reversed": st.booleans(),
        })

    return st.sampled_from(["py", "py", "google"]).flatmap(case)


# -- from the case to proto files ----------------------------------------------------------------


def file_path(f: dict) -> str:
    return (f["dir"] + "/" if f["dir"] else "") + f["name"] + ".proto"


def flat(f: dict) -> list[tuple[str, ...]]:
    out: list[tuple[str, ...]] = []
    for name, subs in f["messages"]:
        out.append((name,))
        for sub, subsubs in subs:
            out.append((name, sub))
            out += [(name, sub, x) for x in subsubs]
    return out


def asked(c: dict) -> list[dict]:
    """The files to generate code for, in the order asked."""
    return [f for f in c["files"] if f["asked"]][:: -1 if c["reversed"] else 1]


def full(f: dict, qual: tuple[str, ...]) -> str:
    return ".".join([f["package"], *qual] if f["package"] else qual)


def resolved(c: dict) -> dict:
    """With the full names of the messages methods refer to, of files up to the method's."""

    def name(index: int, i: int) -> str:
        everything = [full(f, q) for f in c["files"][: index + 1] for q in flat(f)]
        names = [*everything, *WKT] if i % 3 == 0 else everything
        return names[(i - 1) % len(names)] if index else names[i % len(names)]

    return {
        **c,
        "files": [
            {**f, "services": [(s, [{**m, "input": name(n, m["input"]), "output": name(n, m["output"])} for m in ms]) for s, ms in f["services"]]}
            for n, f in enumerate(c["files"])
        ],
    }


def render(c: dict, index: int) -> str:
    f = c["files"][index]
    out = ['edition = "2023";' if f["syntax"] == "2023" else f'syntax = "{f["syntax"]}";']
    if f["package"]:
        out.append(f"package {f['package']};")
    used = {m[k] for _, ms in f["services"] for m in ms for k in ("input", "output")}
    for i, g in enumerate(c["files"]):
        if i < index:
            out.append(f'import "{file_path(g)}";')
    out += [f'import "google/protobuf/{w}.proto";' for w in sorted({WKT_FILES[u.rpartition(".")[2]] for u in used if u in WKT})]

    def body(name: str, subs: Any, depth: int) -> None:
        pad = "  " * depth
        out.append(f"{pad}message {name} {{")
        out.append(f"{pad}  {'optional ' if f['syntax'] == 'proto2' else ''}string v = 1;")
        for s in subs:
            body(*(s if isinstance(s, tuple) else (s, [])), depth + 1)
        out.append(pad + "}")

    for name, subs in f["messages"]:
        body(name, subs, 0)
    for sname, methods in f["services"]:
        out.append(f"service {sname} {{")
        for m in methods:
            i = ("stream " if m["kind"] in ("client", "bidi") else "") + "." + m["input"]
            o = ("stream " if m["kind"] in ("server", "bidi") else "") + "." + m["output"]
            opt = f" {{ option idempotency_level = {m['idem']}; }}" if m["idem"] else ";"
            out.append(f"  rpc {m['name']}({i}) returns ({o}){opt}")
        out.append("}")
    return "\n".join(out) + "\n"


# -- everything below runs in a forked child ---------------------------------------------------------


def plugin(main: Any, request: bytes) -> Any:
    """Runs a protoc plugin's main on a request."""
    from google.protobuf.compiler import plugin_pb2

    class Std:
        def __init__(self, b: bytes = b"") -> None:
            self.buffer = io.BytesIO(b)

        def write(self, s: str) -> None:
            pass

        def flush(self) -> None:
            pass

    stdin, stdout, argv = sys.stdin, sys.stdout, sys.argv
    out = Std()
    try:
        sys.stdin, sys.stdout, sys.argv = Std(request), out, ["plugin"]  # type: ignore[assignment]
        main()
    finally:
        sys.stdin, sys.stdout, sys.argv = stdin, stdout, argv
    return plugin_pb2.CodeGeneratorResponse.FromString(out.buffer.getvalue())


def compile_case(c: dict, tmp: str) -> tuple[bool, str]:
    """(valid, message); writes the generated modules into tmp/out."""
    from google.protobuf import descriptor_pb2
    from google.protobuf.compiler import plugin_pb2
    from grpc_tools import _protoc_compiler
    import grpc_tools

    src, out = os.path.join(tmp, "src"), os.path.join(tmp, "out")
    os.makedirs(out)
    paths = [file_path(f) for f in c["files"]]
    for i, p in enumerate(paths):
        os.makedirs(os.path.dirname(os.path.join(src, p)), exist_ok=True)
        with open(os.path.join(src, p), "w") as fp:
            fp.write(render(c, i))
    ds = os.path.join(tmp, "ds")
    include = os.path.join(os.path.dirname(grpc_tools.__file__), "_proto")
    args = ["protoc", f"-I{src}", f"-I{include}", f"--descriptor_set_out={ds}", "--include_imports", "--include_source_info"]
    if c["runtime"] == "google":
        args.append(f"--python_out={out}")
    err = os.open(os.path.join(tmp, "err"), os.O_CREAT | os.O_WRONLY)
    os.dup2(err, 2)
    if _protoc_compiler.run_main([a.encode() for a in [*args, *paths]]) != 0:
        with open(os.path.join(tmp, "err")) as fp:
            return False, fp.read()
    with open(ds, "rb") as fp:
        fds = descriptor_pb2.FileDescriptorSet.FromString(fp.read())
    req = plugin_pb2.CodeGeneratorRequest(file_to_generate=paths, proto_file=fds.file)

    def emit(r: Any, what: str) -> list[str]:
        check(not r.error, f"{what}-failed", lambda: r.error)
        for f in r.file:
            p = os.path.join(out, f.name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as fp:
                fp.write(f.content)
        return [f.name for f in r.file]

    if c["runtime"] == "py":
        import protoc_gen_py

        emit(plugin(protoc_gen_py.main, req.SerializeToString()), "protoc-gen-py")
    import protoc_gen_connectrpc

    options = [f"protobuf={c['runtime']}"] if c["runtime"] == "google" else []
    options += [f"io={c['io']}"] if c["io"] else []
    req.parameter = ",".join(options)
    del req.file_to_generate[:]
    req.file_to_generate.extend(file_path(f) for f in asked(c))
    c["emitted"] = emit(plugin(protoc_gen_connectrpc.main, req.SerializeToString()), "generator")
    return True, ""


def snake(name: str) -> str:
    """get_http_response of GetHTTPResponse, for names made of letters."""
    words = re.findall(r"[A-Z]+(?=[A-Z][a-z])|[A-Z]?[a-z]+|[A-Z]+", name)
    return "_".join(w.lower() for w in words)


def method_attr(cls: Any, rpc: str, where: str) -> str:
    own = [a for a in vars(cls) if not a.startswith('__') and norm_name(a) == norm_name(rpc) and callable(vars(cls)[a])]
    check(len(own) == 1, "method-missing", lambda: f"{where}: {rpc} is one of {[a for a in vars(cls) if not a.startswith('__')]}")
    if re.fullmatch(r"([A-Z][a-z]+)+", rpc) or re.fullmatch(r"([A-Z][a-z]+)+[A-Z]*", rpc):
        want = snake(rpc)
        ok = {want + "_"} if keyword.iskeyword(want) else {want, want + "_"}
        check(own[0] in ok, "method-name", lambda: f"{where}: {own[0]} for {rpc}")
    return own[0]


class World:
    def __init__(self, c: dict, tmp: str) -> None:
        self.c, self.tmp = {**c, "protocol": PROTOCOLS[c["protocol"]]}, tmp
        self.classes: dict[str, Any] = {}
        sys.path.insert(0, tmp)
        sys.path.insert(0, os.path.join(tmp, "out"))
        self.modules: dict[int, Any] = {}

    def load(self) -> None:
        for name in self.c["emitted"]:
            mod = name.removesuffix(".py").replace("/", ".")
            try:
                self.modules[name] = importlib.import_module("out." + mod)
            except Exception:
                check(False, "generated-module-does-not-import", traceback.format_exc(limit=-3))

    def message(self, name: str) -> Any:
        if self.c["runtime"] == "google":
            from google.protobuf import descriptor_pool, message_factory

            return message_factory.GetMessageClass(descriptor_pool.Default().FindMessageTypeByName(name))
        if not self.classes:
            import protobuf.wkt

            mods = [m for k, m in sys.modules.items() if k.startswith("out.") and k.rpartition(".")[2].endswith("_pb")]

            def walk(ns: Any, depth: int) -> None:
                for v in list(vars(ns).values()):
                    if isinstance(v, type) and hasattr(v, "desc") and depth < 4:
                        try:
                            n = v.desc().type_name
                        except Exception:  # noqa: BLE001,S112
                            continue
                        if n not in self.classes:
                            self.classes[n] = v
                            walk(v, depth + 1)

            for m in mods:
                walk(m, 0)
            for w in WKT:
                self.classes[w] = getattr(protobuf.wkt, w.rpartition(".")[2])
        return self.classes[name]

    def make(self, name: str, tag: str) -> Any:
        cls = self.message(name)
        if name == "google.protobuf.StringValue":
            return cls(value=tag)
        if name in WKT:
            return cls()
        return cls(v=tag)

    def tag(self, name: str, m: Any) -> str | None:
        """The tag of a message, None if the type has no room for one."""
        if name == "google.protobuf.StringValue":
            return m.value
        return None if name in WKT else m.v


PROTOCOLS = {"connect": ProtocolType.CONNECT, "grpc": ProtocolType.GRPC, "grpcweb": ProtocolType.GRPC_WEB}
LEVELS = {None: IdempotencyLevel.UNKNOWN, "IDEMPOTENCY_UNKNOWN": IdempotencyLevel.UNKNOWN, "NO_SIDE_EFFECTS": IdempotencyLevel.NO_SIDE_EFFECTS, "IDEMPOTENT": IdempotencyLevel.IDEMPOTENT}


class Count:
    def __init__(self) -> None:
        self.names: list[str] = []


class CountAsync(Count):
    async def on_start(self, ctx: Any) -> None:
        self.names.append(ctx.method.name)

    async def on_end(self, token: Any, ctx: Any, error: Any) -> None:
        pass


class CountSync(Count):
    def on_start_sync(self, ctx: Any) -> None:
        self.names.append(ctx.method.name)

    def on_end_sync(self, token: Any, ctx: Any, error: Any) -> None:
        pass


def serve_and_call(w: World, mod: Any, fdesc: dict, sname: str, methods: list, flavour: str, labels: list) -> None:
    c = w.c
    is_async = flavour == "async"
    type_name = full(fdesc, (sname,))
    esc = sname + "_" if keyword.iskeyword(sname) else sname
    suffix, app_suffix, client_suffix = ("", "ASGIApplication", "Client") if is_async else ("Sync", "WSGIApplication", "ClientSync")
    where = f"{type_name} {flavour}"

    def get(s: str) -> Any:
        for base in (esc + s, sname + s, sname + "_" + s):
            if not keyword.iskeyword(base) and isinstance(getattr(mod, base, None), type) and getattr(mod, base).__module__ == mod.__name__:
                return getattr(mod, base)
        check(False, "class-missing", f"{where}: {esc + s} not in {[x for x in dir(mod) if not x.startswith('_')]}")
        return None

    service_cls, app_cls, client_cls = get(suffix), get(app_suffix), get(client_suffix)
    for cls in (service_cls, app_cls, client_cls):
        check(isinstance(cls, type) and cls.__module__ == mod.__name__, "class-missing", lambda: f"{where}: {cls}")
    seen: list[tuple] = []

    def handler(m: dict, attr: str) -> Any:
        inp, outp = m["input"], m["output"]

        def note(ctx: Any, reqs: list) -> None:
            seen.append((m["name"], ctx.method, ctx.http_method, [r for r in reqs], ctx.request_headers.get("x-t"), ctx.timeout_ms))

        def res(i: int) -> Any:
            return w.make(outp, f"{m['name']}-res{i}")

        if is_async:

            async def unary(self: Any, request: Any, ctx: Any) -> Any:
                note(ctx, [request])
                return res(0)

            async def client(self: Any, request: Any, ctx: Any) -> Any:
                note(ctx, [r async for r in request])
                return res(0)

            async def server(self: Any, request: Any, ctx: Any) -> Any:
                note(ctx, [request])
                for i in range(m["n"]):
                    yield res(i)

            async def bidi(self: Any, request: Any, ctx: Any) -> Any:
                note(ctx, [r async for r in request])
                for i in range(m["n"]):
                    yield res(i)
        else:

            def unary(self: Any, request: Any, ctx: Any) -> Any:
                note(ctx, [request])
                return res(0)

            def client(self: Any, request: Any, ctx: Any) -> Any:
                note(ctx, list(request))
                return res(0)

            def server(self: Any, request: Any, ctx: Any) -> Any:
                note(ctx, [request])
                for i in range(m["n"]):
                    yield res(i)

            def bidi(self: Any, request: Any, ctx: Any) -> Any:
                note(ctx, list(request))
                for i in range(m["n"]):
                    yield res(i)

        _ = inp
        return {"unary": unary, "client": client, "server": server, "bidi": bidi}[m["kind"]]

    attrs = {m["name"]: method_attr(service_cls, m["name"], where + " interface") for m in methods}
    impl = type("Impl", (service_cls,), {attrs[m["name"]]: handler(m, attrs[m["name"]]) for m in methods if m["served"]})()
    count = CountAsync() if is_async else CountSync()
    ccount = CountAsync() if is_async else CountSync()
    json_codec = proto_json_codec if c["runtime"] == "py" else google_protobuf_json_codec
    service: Any = impl
    started: list[str] = []
    if is_async and c["lifespan"]:

        async def life() -> Any:
            started.append("up")
            try:
                yield impl
            finally:
                started.append("down")

        service = life()
    app = app_cls(service, interceptors=[count])
    check(app.path == f"/{type_name}", "application-path", lambda: f"{app.path} of {type_name}")
    t = http.AsgiLoopback(app) if is_async else http.WsgiLoopback(app)
    import pyqwest

    kw: dict = {"http_client": (pyqwest.Client if is_async else pyqwest.SyncClient)(t), "interceptors": [ccount], "protocol": c["protocol"]}
    if c["codec"]:
        kw["codec"] = json_codec()
    client = client_cls("http://localhost", **kw)
    want_ct = "json" if c["codec"] else "proto"
    loop: list[Any] = []

    def call(m: dict, use_get: bool) -> tuple[list, Exception | None]:
        f = getattr(client, method_attr(client_cls, m["name"], where + " client"))
        inp = m["input"]
        extra: dict = {"headers": {"x-t": m["name"]}, "timeout_ms": 5000}
        if use_get:
            extra["use_get"] = True
        reqs = [w.make(inp, f"{m['name']}-req{i}") for i in range(1 if m["kind"] in ("unary", "server") else m["n"])]
        if not is_async:
            with vclock.frozen():
                try:
                    arg = reqs[0] if m["kind"] in ("unary", "server") else iter(reqs)
                    r = f(arg, **extra)
                    return ([r] if m["kind"] in ("unary", "client") else list(r)), None
                except Exception as e:  # noqa: BLE001
                    return [], e

        async def stream() -> Any:
            for r in reqs:
                yield r

        async def go() -> tuple:
            arg = reqs[0] if m["kind"] in ("unary", "server") else stream()
            try:
                if m["kind"] in ("unary", "client"):
                    return [await f(arg, **extra)], None
                return [x async for x in f(arg, **extra)], None
            except Exception as e:  # noqa: BLE001
                return [], e

        if not loop:
            return vclock.run(go).value
        return loop[0](go)

    def judge(m: dict, use_get: bool) -> None:
        inp, outp = m["input"], m["output"]
        seen.clear()
        t.requests.clear()
        count.names.clear()
        ccount.names.clear()
        res, err = call(m, use_get)
        what = f"{where} {m['name']} ({m['kind']}, {inp} -> {outp})"
        check(len(t.requests) == 1, "request-count", lambda: f"{what}: {len(t.requests)} {err!r}")
        q = t.requests[0]
        check(q.path == f"/{type_name}/{m['name']}", "request-path", lambda: f"{what}: {q.path}")
        check(q.method == ("GET" if use_get and c["protocol"] is ProtocolType.CONNECT else "POST"), "request-method", lambda: f"{what}: {q.method}")
        if q.method == "POST":
            ct = dict(q.headers).get("content-type", "")
            want = {
                ProtocolType.CONNECT: f"application/{want_ct}" if m["kind"] == "unary" else f"application/connect+{want_ct}",
                ProtocolType.GRPC: f"application/grpc+{want_ct}", ProtocolType.GRPC_WEB: f"application/grpc-web+{want_ct}",
            }[c["protocol"]]
            check(ct == want, "content-type", lambda: f"{what}: {ct} want {want}")
        check(ccount.names == [m["name"]], "client-interceptors", lambda: f"{what}: {ccount.names}")
        check(count.names == [m["name"]], "application-interceptors", lambda: f"{what}: {count.names}")
        if not m["served"]:
            check(isinstance(err, ConnectError) and err.code is Code.UNIMPLEMENTED, "not-unimplemented", lambda: f"{what}: {err!r}")
            check(not seen, "wrong-method-called", lambda: f"{what}: {seen}")
            labels.append("unimplemented")
            return
        check(err is None, "call-failed", lambda: f"{what}: {err!r}")
        check(len(seen) == 1 and seen[0][0] == m["name"], "wrong-method-called", lambda: f"{what}: {[s[0] for s in seen]}")
        _, mi, hm, reqs, header, timeout = seen[0]
        check((mi.name, mi.service_name) == (m["name"], type_name), "method-info", lambda: f"{what}: {mi}")
        check(mi.input is w.message(inp) and mi.output is w.message(outp), "method-info-types", lambda: f"{what}: {mi}")
        check(mi.idempotency_level is LEVELS[m["idem"]], "idempotency-level", lambda: f"{what}: {mi}")
        check(header == m["name"], "call-headers", lambda: f"{what}: {header}")
        check(timeout is not None and 4000 < timeout <= 5000, "call-timeout", lambda: f"{what}: {timeout}")
        n = 1 if m["kind"] in ("unary", "server") else m["n"]
        check(all(isinstance(r, w.message(inp)) for r in reqs), "request-type", lambda: f"{what}: {reqs}")
        check([w.tag(inp, r) for r in reqs] == [None if w.tag(inp, r) is None else f"{m['name']}-req{i}" for i, r in enumerate(reqs)] and len(reqs) == n, "requests", lambda: f"{what}: {reqs}")
        n = 1 if m["kind"] in ("unary", "client") else m["n"]
        check(all(isinstance(r, w.message(outp)) for r in res), "response-type", lambda: f"{what}: {res}")
        check([w.tag(outp, r) for r in res] == [None if w.tag(outp, r) is None else f"{m['name']}-res{i}" for i, r in enumerate(res)] and len(res) == n, "responses", lambda: f"{what}: {res}")
        labels.append(f"{flavour}/{m['kind']}" + ("/get" if use_get else ""))

    def everything() -> None:
        for m in methods:
            judge(m, False)
            if m["kind"] == "unary" and m["idem"] == "NO_SIDE_EFFECTS":
                judge(m, True)
            else:
                import inspect

                sig = inspect.signature(getattr(client_cls, method_attr(client_cls, m["name"], where)))
                check("use_get" not in sig.parameters, "get-offered", lambda: f"{where} {m['name']}")

    if is_async and c["lifespan"]:
        lifespan(app, everything, loop, started)
    else:
        everything()
    # the options of application and client constructor are passed on
    if methods:
        options(w, methods, impl, app_cls, client_cls, is_async, json_codec, method_attr(client_cls, methods[0]["name"], where))
    # clients are context managers, whatever the names of RPCs
    if is_async:

        async def ctx() -> None:
            async with client_cls("http://localhost", http_client=kw["http_client"]):
                pass

        vclock.run(ctx)
    else:
        with client_cls("http://localhost", http_client=kw["http_client"]):
            pass


def lifespan(app: Any, everything: Any, loop: list, started: list) -> None:
    from .p17 import lifespan_start

    lp = vclock.VLoop()
    vclock.CLOCK.active, vclock.CLOCK.now = True, 1000.0
    asyncio.set_event_loop(None)

    async def up() -> Any:
        return await lifespan_start(app)

    try:
        stop = lp.run_until_complete(up())
        loop.append(lambda go: lp.run_until_complete(go()))
        everything()
        lp.run_until_complete(stop())
    finally:
        loop.clear()
        vclock.CLOCK.active = False
    check(started == ["up", "down"], "lifespan-of-service", started)


def options(w: World, methods: list, impl: Any, app_cls: Any, client_cls: Any, is_async: bool, json_codec: Any, attr: str) -> None:
    import pyqwest

    m = methods[0]
    c = w.c
    inp = m["input"]

    def run(akw: dict, ckw: dict) -> tuple[Any, Any, Exception | None]:
        app = app_cls(impl, **akw)
        t = http.AsgiLoopback(app) if is_async else http.WsgiLoopback(app)
        client = client_cls("http://localhost", http_client=(pyqwest.Client if is_async else pyqwest.SyncClient)(t), **ckw)
        req = w.make(inp, "x" * 3000)
        err: Exception | None = None
        f = getattr(client, attr)
        if is_async:

            async def go() -> None:
                async def one() -> Any:
                    yield req

                if m["kind"] in ("unary", "client"):
                    await f(req if m["kind"] == "unary" else one())
                else:
                    async for _ in f(req if m["kind"] == "server" else one()):
                        pass

            async def guarded() -> Exception | None:
                try:
                    await go()
                except Exception as e:  # noqa: BLE001
                    return e
                return None

            err = vclock.run(guarded).value
        else:
            try:
                r = f(req if m["kind"] in ("unary", "server") else iter([req]))
                if m["kind"] in ("server", "bidi"):
                    list(r)
            except Exception as e:  # noqa: BLE001
                err = e
        return t.requests[0] if t.requests else None, t.outs[0] if t.outs else None, err

    def code(e: Exception | None) -> Any:
        return e.code if isinstance(e, ConnectError) else e

    unary = m["kind"] == "unary"
    enc = "content-encoding" if unary else "connect-content-encoding"
    acc = "accept-encoding" if unary else "connect-accept-encoding"
    q, out, err = run({}, {})
    expected = None if m["served"] else Code.UNIMPLEMENTED
    check(code(err) == expected, "default-options", lambda: repr(err))
    hs = dict(q.headers)
    check(hs.get(enc) == "gzip" and "gzip" in hs.get(acc, ""), "default-client-compression", lambda: repr(hs))
    q, out, err = run({"codecs": [json_codec()]}, {"codec": json_codec(), "send_compression": None, "accept_compression": [], "timeout_ms": 7000})
    hs = dict(q.headers)
    check(code(err) == expected and hs["content-type"].endswith("json"), "codec-option", lambda: f"{err!r} {hs}")
    check(hs.get(enc, "identity") == "identity" and "gzip" not in hs.get(acc, ""), "compression-options", lambda: repr(hs))
    check(6000 < int(hs.get("connect-timeout-ms", 0)) <= 7000, "timeout-option", lambda: repr(hs))
    q, out, err = run({"codecs": [json_codec()]}, {})
    check(err is not None, "codecs-option-ignored", lambda: repr(q))
    if w.tag(inp, w.make(inp, "x")) is not None and m["kind"] in ("unary", "server"):
        q, out, err = run({"read_max_bytes": 100}, {"send_compression": GzipCompression()})
        check(code(err) == Code.RESOURCE_EXHAUSTED, "read-max-bytes-option", lambda: repr(err))
    q, out, err = run({"compressions": []}, {"send_compression": None})
    check(code(err) == expected and all(k not in ("content-encoding", "connect-content-encoding") or v == "identity" for k, v in out.headers), "compressions-option", lambda: f"{err!r} {out.headers}")
    if m["served"] and m["kind"] in ("unary", "client") and w.tag(m["output"], w.make(m["output"], "x")) is not None:
        q, out, err = run({}, {"read_max_bytes": 2})
        check(code(err) == Code.RESOURCE_EXHAUSTED, "client-read-max-bytes-option", lambda: repr(err))


def module_name(path: str) -> str:
    return "/".join(re.sub("^pb_+|[^a-z0-9]", "", x) for x in path.split("/"))


def exercise(c: dict, tmp: str, labels: list) -> None:
    ok, why = compile_case(c, tmp)
    if not ok:
        labels.append("invalid")
        if os.environ.get("P21_WHY"):
            print(why)
        return
    files = [f for f in asked(c) if f["services"]]
    if not asked(c):
        return
    check(len(c["emitted"]) == len(files) and all(n.endswith("_connect.py") for n in c["emitted"]), "generated-files", lambda: c["emitted"])
    w = World(c, tmp)
    w.load()
    for f in files:
        named = [n for n in c["emitted"] if module_name(n) == module_name(file_path(f).removesuffix(".proto") + "_connect.py")]
        check(len(named) == 1, "generated-file-name", lambda: f"{c['emitted']} for {file_path(f)}")
        mod = w.modules[named[0]]
        for sname, methods in f["services"]:
            for flavour, app in (("async", "ASGIApplication"), ("sync", "WSGIApplication")):
                if c["io"] in (None, flavour):
                    serve_and_call(w, mod, f, sname, methods, flavour, labels)
                else:
                    check(not any(getattr(getattr(mod, b + app, None), "__module__", None) == mod.__name__ for b in (sname, sname + "_")), "io-option-ignored", lambda: f"{sname}{app}")
    labels.append("valid")


def gen_test(c: dict, rec: Any) -> None:
    for f in c["files"]:
        names = [n for n, _ in f["services"]]
        if any(a != b and a in (b + "Client", b + "Sync", b + "ClientSync", b + "_") for a in names for b in names):
            return
    tmp = tempfile.mkdtemp(prefix="vt-p21-")
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            os.close(r)
            labels: list = []
            report: dict = {"labels": labels}
            try:
                exercise(resolved(c), tmp, labels)
            except Violation as v:
                report["violation"] = [v.sig, str(v)]
            except BaseException:
                report["crash"] = traceback.format_exc()
            if "violation" not in report and PENDING:
                report["violation"] = [PENDING[0].sig, str(PENDING[0])]
            data = json.dumps(report).encode()
            while data:
                data = data[os.write(wfd, data):]
            status = 0
        finally:
            os._exit(status)
    os.close(wfd)
    chunks = []
    try:
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            chunks.append(b)
        os.waitpid(pid, 0)
    except BaseException:
        with contextlib.suppress(OSError):
            os.kill(pid, 9)
            os.waitpid(pid, 0)
        raise
    finally:
        os.close(r)
        shutil.rmtree(tmp, ignore_errors=True)
    report = json.loads(b"".join(chunks) or b"{}")
    if not report:
        raise Violation("generated-code-killed-the-process", "")
    if "crash" in report:
        raise RuntimeError(report["crash"])
    for x in report["labels"]:
        rec.label(x)
    if "violation" in report:
        sig, msg = report["violation"]
        raise Violation(sig, msg.removeprefix(sig + ": "))
    if "valid" in report["labels"]:
        special = {*KEYWORDS, *SOFT, *USED}
        names = [n for f in c["files"] for n, _ in f["services"]] + [x for f in c["files"] for q in flat(f) for x in q]
        names += [m["name"] for f in c["files"] for _, ms in f["services"] for m in ms]
        ms = [m for f in c["files"] for _, ms in f["services"] for m in ms]
        if ms and (any(n in special for n in names) or len(c["files"]) > 1 or c["io"] or any(m["kind"] != "unary" or m["idem"] for m in ms)):
            rec.nontrivial(f"{c['runtime']} {len(ms)} RPCs")
        rec.evals(max(1, len(ms)))


PARTS = [Part("generated", gen_strategy, gen_test, quick=1600, shards=8, case_cpu_s=60)]
