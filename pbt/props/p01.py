"""P01: an RPC delivers exactly the sent messages, in order, in both directions."""

from __future__ import annotations

import json
from typing import Any

from google.protobuf import json_format, struct_pb2
from hypothesis import strategies as st
from protobuf.wkt import Empty, ListValue, Struct

from connectrpc.compat import google_protobuf_codecs
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.server import Endpoint, EndpointSync

from .. import http, interop, msgs, rpc, vclock
from ..core import Part, check

PID = "P01"
LEVEL = "exploration"
RULE = (
    "non-trivial: the call carries at least one non-default message and is either a stream with "
    ">= 2 messages in a direction, or compressed, or cut into several chunks, or non-proto/google; or a message is false in Python"
)
ASSUMPTIONS = [
    "clients and servers are joined by in-process ASGI/WSGI loopbacks, and by sockets in one part",
    "messages are values of one proto3 schema covering scalars, enums, oneofs, maps, nesting and well-known types",
]
QUICK_BUDGET = 140.0

COMMON = {
    "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
    "codec": st.sampled_from(["proto", "proto", "json"]),
    "send": rpc.ENCODINGS,
    "accept": rpc.COMP_SET,
    "srv": rpc.COMP_SET,
    "rt_c": st.sampled_from(["py", "py", "google"]),
    "rt_s": st.sampled_from(["py", "py", "google"]),
    "req_plan": rpc.PLAN,
    "res_plan": rpc.PLAN,
}


def strategy(pairs: list[str], big: int) -> st.SearchStrategy:
    def build(kind: str) -> st.SearchStrategy:
        n_req = st.lists(msgs.reqs(big), max_size=5) if kind in ("client", "bidi") else st.lists(
            msgs.reqs(big), min_size=1, max_size=1
        )
        n_res = st.lists(msgs.ress(big), max_size=5) if kind in ("server", "bidi") else st.lists(
            msgs.ress(big), min_size=1, max_size=1
        )
        return st.fixed_dictionaries(
            {
                "kind": st.just(kind),
                "pair": st.sampled_from(pairs),
                "reqs": n_req,
                "ress": n_res,
                "use_get": st.booleans() if kind == "get" else st.just(False),
                "interleave": st.one_of(st.none(), st.lists(st.integers(0, 2), min_size=1, max_size=3))
                if kind == "bidi"
                else st.none(),
                **COMMON,
            }
        )

    return st.sampled_from(rpc.KINDS).flatmap(build)


def test(c: dict, rec) -> None:
    kind, proto = c["kind"], c["protocol"]
    caller, flavour = c["pair"].split("-")
    srv = c["srv"]
    send = c["send"]
    if send is not None:
        supported = ["gzip"] if srv is None else srv
        if send not in supported:
            srv = [*supported, send]
    svc = rpc.Script(rt=c["rt_s"], ress=c["ress"], interleave=c["interleave"])
    app = rpc.make_app(flavour, svc, rt=c["rt_s"], compressions=rpc.comps(srv))
    kw = dict(
        protocol=rpc.PROTOCOLS[proto],
        codec=rpc.codec(c["codec"], c["rt_c"]),
        send_compression=rpc.comp(send) if send else None,
        accept_compression=rpc.comps(c["accept"]),
    )
    reqs = [rpc.mk_req(c["rt_c"], r) for r in c["reqs"]]
    use_get = c["use_get"] and proto == "connect"
    if caller == "async":
        if flavour == "asgi":
            t = http.AsgiLoopback(app, req_plan=c["req_plan"], res_plan=c["res_plan"])
        else:
            t = http.BufferedToWsgi(app, res_plan=c["res_plan"])

        async def go():
            client = rpc.aclient(t, **kw)
            return await rpc.acall(client, kind, reqs, rt=c["rt_c"], use_get=use_get)

        o = vclock.run(go)
        res = o.value
    else:
        if flavour == "wsgi":
            t = http.WsgiLoopback(app, req_plan=c["req_plan"], res_plan=c["res_plan"])
        else:
            t = http.BufferedToAsgi(app, res_plan=c["res_plan"])
        res = rpc.scall(rpc.sclient(t, **kw), kind, reqs, rt=c["rt_c"], use_get=use_get)

    if res.error is not None:
        check(False, "call-failed", repr(res.error) + " cause " + repr(res.error.__cause__))
    check(len(svc.seen) == 1, "handler-invocations", len(svc.seen))
    s = svc.seen[0]
    want_req = [msgs.nreq(r) for r in c["reqs"]]
    check(s.reqs == want_req, "requests-differ", lambda: f"sent {want_req}\n got {s.reqs}")
    check(s.ended, "request-stream-not-ended")
    want_res = [msgs.nres(r) for r in c["ress"]]
    check(res.messages == want_res, "responses-differ", lambda: f"sent {want_res}\n got {res.messages}")

    rec.label(f"{c['pair']}")
    rec.label(f"{proto}/{kind}")
    if send:
        rec.label(f"send-{send}")
    if any(c["reqs"]) or any(c["ress"]):
        if len(c["reqs"]) > 1 or len(c["ress"]) > 1:
            rec.nontrivial(f"{proto} stream")
        elif send or c["req_plan"] or c["codec"] == "json" or c["rt_c"] == "google":
            rec.nontrivial(f"{proto} {kind}")


# -- messages of other types, such as those that are false ---------------------------------------------


class RawCodec:
    """Messages are bytes."""

    def name(self) -> str:
        return "raw"

    def encode(self, message: Any) -> bytes:
        return message

    def decode(self, data: Any, message_class: Any) -> Any:
        return message_class(data)


class ValueCodec:
    """Messages are JSON values."""

    def name(self) -> str:
        return "value"

    def encode(self, message: Any) -> bytes:
        return json.dumps(message).encode()

    def decode(self, data: Any, message_class: Any) -> Any:
        return json.loads(bytes(data))


JSON_VALUES = st.sampled_from([0, 1, False, True, "", "x", [], [0], {}, {"": 0}, 0.0, -1])
OBJECTS = st.sampled_from([{}, {"": None}, {"a": {}}, {"a": [], "b": 0.5}])
LISTS = st.sampled_from([[], [None], [[]], [False, "x"]])
# name: message type, codecs, values, message of a value, value of a message
TYPES: dict[str, tuple] = {
    "raw": (bytes, lambda: [RawCodec()], st.binary(max_size=3), lambda v: v, lambda m: m),
    "value": (object, lambda: [ValueCodec()], JSON_VALUES, lambda v: v, lambda m: m),
    "google struct": (struct_pb2.Struct, google_protobuf_codecs, OBJECTS, lambda v: json_format.ParseDict(v, struct_pb2.Struct()), json_format.MessageToDict),
    "google list": (struct_pb2.ListValue, google_protobuf_codecs, LISTS, lambda v: json_format.ParseDict(v, struct_pb2.ListValue()), json_format.MessageToDict),
    "struct": (Struct, lambda: [rpc.codec("proto"), rpc.codec("json")], OBJECTS, lambda v: Struct.from_json(json.dumps(v)), lambda m: json.loads(m.to_json())),
    "list": (ListValue, lambda: [rpc.codec("proto"), rpc.codec("json")], LISTS, lambda v: ListValue.from_json(json.dumps(v)), lambda m: json.loads(m.to_json())),
    "empty": (Empty, lambda: [rpc.codec("json"), rpc.codec("proto")], st.just({}), lambda v: Empty(), lambda m: json.loads(m.to_json())),
}


def types_strategy() -> st.SearchStrategy:
    def build(kind: str, name: str) -> st.SearchStrategy:
        def values(stream: bool) -> st.SearchStrategy:
            return st.lists(TYPES[name][2], min_size=0 if stream else 1, max_size=4 if stream else 1)

        return st.fixed_dictionaries(
            {
                "kind": st.just(kind),
                "type": st.just(name),
                "pair": st.sampled_from(["async-asgi", "sync-wsgi", "async-wsgi", "sync-asgi"]),
                "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
                "codec": st.integers(0, 1),
                "send": st.sampled_from([None, "gzip"]),
                "reqs": values(kind in ("client", "bidi")),
                "ress": values(kind in ("server", "bidi")),
                "get": st.booleans(),
            }
        )

    return st.tuples(st.sampled_from(rpc.KINDS), st.sampled_from(list(TYPES))).flatmap(lambda x: build(*x))


def types_test(c: dict, rec: Any) -> None:
    kind, proto = c["kind"], c["protocol"]
    cls, codecs, _, make, read = TYPES[c["type"]]
    caller, flavour = c["pair"].split("-")
    seen: list = []

    async def one(request: Any, ctx: Any) -> Any:
        seen.append([read(request)])
        return make(c["ress"][0])

    async def client(requests: Any, ctx: Any) -> Any:
        seen.append([read(r) async for r in requests])
        return make(c["ress"][0])

    async def server(request: Any, ctx: Any) -> Any:
        seen.append([read(request)])
        for r in c["ress"]:
            yield make(r)

    async def bidi(requests: Any, ctx: Any) -> Any:
        seen.append([read(r) async for r in requests])
        for r in c["ress"]:
            yield make(r)

    def one_sync(request: Any, ctx: Any) -> Any:
        seen.append([read(request)])
        return make(c["ress"][0])

    def client_sync(requests: Any, ctx: Any) -> Any:
        seen.append([read(r) for r in requests])
        return make(c["ress"][0])

    def server_sync(request: Any, ctx: Any) -> Any:
        seen.append([read(request)])
        for r in c["ress"]:
            yield make(r)

    def bidi_sync(requests: Any, ctx: Any) -> Any:
        seen.append([read(r) for r in requests])
        for r in c["ress"]:
            yield make(r)

    mi = MethodInfo(
        name=rpc.METHOD_NAME[kind], service_name=rpc.SERVICE, input=cls, output=cls,
        idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS if kind == "get" else IdempotencyLevel.UNKNOWN,
    )
    factory = rpc.ASYNC_FACTORY[kind]
    if flavour == "asgi":
        fn: Any = {"client": client, "server": server, "bidi": bidi}.get(kind, one)
        app: Any = rpc.AsgiApp(service=None, endpoints=lambda s: {rpc.path(kind): getattr(Endpoint, factory)(method=mi, function=fn)}, codecs=codecs())
    else:
        fn = {"client": client_sync, "server": server_sync, "bidi": bidi_sync}.get(kind, one_sync)
        app = rpc.WsgiApp(endpoints={rpc.path(kind): getattr(EndpointSync, factory)(method=mi, function=fn)}, codecs=codecs())
    own = codecs()
    kw = dict(protocol=rpc.PROTOCOLS[proto], codec=own[c["codec"] % len(own)], send_compression=rpc.comp(c["send"]) if c["send"] else None)
    reqs = [make(v) for v in c["reqs"]]
    use_get = c["get"] and kind == "get" and proto == "connect"
    if caller == "async":
        t: Any = http.AsgiLoopback(app) if flavour == "asgi" else http.BufferedToWsgi(app)

        async def go() -> Any:
            return await rpc.acall(rpc.aclient(t, **kw), kind, reqs, mi=mi, use_get=use_get)

        res = vclock.run(go).value
    else:
        t = http.WsgiLoopback(app) if flavour == "wsgi" else http.BufferedToAsgi(app)
        res = rpc.scall(rpc.sclient(t, **kw), kind, reqs, mi=mi, use_get=use_get)
    check(res.error is None, "call-failed", lambda: repr(res.error) + " cause " + repr(res.error.__cause__))
    check(seen == [c["reqs"]], "requests-differ", lambda: f"sent {c['reqs']}\n got {seen}")
    got = [read(m) for m in res.raw]
    check(got == c["ress"], "responses-differ", lambda: f"sent {c['ress']}\n got {got}")
    rec.label(c["type"])
    if not all(make(v) for v in c["reqs"] + c["ress"]):
        rec.nontrivial(f"false {c['type']} {kind}")


# -- long streams and large messages -------------------------------------------------------------------


def scale_strategy() -> st.SearchStrategy:
    def build(x: tuple) -> st.SearchStrategy:
        kind, many, pair = x
        both = kind == "bidi"
        pairs = {"loopback": ["async-asgi", "sync-wsgi", "async-wsgi", "sync-asgi"], "sockets": interop.PAIRS}
        return st.fixed_dictionaries(
            {
                "kind": st.just(kind),
                "over": st.just(pair),
                "pair": st.sampled_from(pairs[pair]),
                "protocol": COMMON["protocol"],
                "codec": st.sampled_from(["proto", "json"]),
                "send": rpc.ENCODINGS,
                "n": st.sampled_from([64, 100, 128, 255, 256, 257, 500, 1000, 1001, 1024, 1500]) if many else st.just(1),
                "other": st.sampled_from([1, 300, 1100]) if many and both else st.just(1),
                "size": st.sampled_from([0, 0, 1, 300]) if many else st.one_of(
                    st.sampled_from([131072, 262144, 1 << 20, (1 << 20) + 1, 2_000_000, 4 << 20, (4 << 20) + 1, 5_000_000]), st.integers(100_000, 3_000_000)
                ),
                "pat": st.integers(0, 255),
                "turns": st.booleans() if both else st.just(False),
            }
        )

    return st.tuples(
        st.sampled_from(rpc.KINDS), st.booleans(), st.sampled_from(["loopback", "loopback", "sockets"])
    ).map(lambda x: (x[0], x[1] and x[0] in ("client", "server", "bidi"), x[2])).flatmap(build)


def scale_test(c: dict, rec: Any) -> None:
    kind, n = c["kind"], c["n"]

    def stream(n: int) -> list:
        data = {"data": {"n": c["size"], "pat": c["pat"]}} if c["size"] else {}
        return [{"num": i, "text": str(i), **data} if n > 1 else {"text": "x", **data} for i in range(n)]

    full = {
        **c, "rt": "py", "rt_c": "py", "rt_s": "py", "accept": None, "srv": ["gzip", "br", "zstd"], "use_get": False,
        "reqs": stream(n if kind in ("client", "bidi") else 1),
        "ress": [{"text": d["text"], "data": d.get("data", b"")} for d in stream({"bidi": c["other"] if n > 1 else 1, "server": n}.get(kind, 1))],
        "req_plan": [], "res_plan": [], "error": None, "req_meta": [], "headers": [], "trailers": [],
        "interleave": [1] if c["turns"] else None,
    }
    if c["over"] == "sockets":
        if not c["pair"].endswith("2"):
            full["interleave"] = None
            if c["protocol"] == "grpc":
                full["protocol"] = "connect"
        interop.sockets_test(full, rec)
    else:
        test(full, rec)
    rec.label(c["over"])
    rec.nontrivial(f"scale {kind} {'messages' if n > 1 else 'size'}")


def huge_strategy() -> st.SearchStrategy:
    """Messages whose length needs more than 24 bits."""
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["client", "server", "bidi", "unary"]),
            "over": st.just("loopback"),
            "pair": st.sampled_from(["async-asgi", "sync-wsgi"]),
            "protocol": st.sampled_from(["connect", "grpc", "grpcweb"]),
            "codec": st.just("proto"),
            "send": st.just(None),
            "n": st.just(1),
            "other": st.just(1),
            "size": st.sampled_from([(1 << 24) - 3, 1 << 24, (1 << 24) + 70_000]),
            "pat": st.just(2),
            "turns": st.just(False),
        }
    )


PARTS = [
    Part("scale", scale_strategy, scale_test, quick=160, shards=2),
    Part("huge", huge_strategy, scale_test, quick=12, thorough=120, shards=2, case_cpu_s=60),
    Part("types", types_strategy, types_test, quick=1200, shards=2),
    Part("sockets", interop.sockets_strategy, interop.sockets_test, quick=600, shards=2),
    Part("async", lambda: strategy(["async-asgi"], 70000), test, quick=2400, shards=2),
    Part("sync", lambda: strategy(["sync-wsgi"], 70000), test, quick=2400, shards=2),
    Part("cross", lambda: strategy(["async-wsgi", "sync-asgi"], 70000), test, quick=1600, shards=2),
]
