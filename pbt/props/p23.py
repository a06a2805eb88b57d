"""P23: codecs and error details round-trip and interoperate."""

from __future__ import annotations

import json
from typing import Any

import protobuf.wkt as W
from google.protobuf import json_format
from hypothesis import strategies as st
from protobuf import Registry

from connectrpc.code import Code
from connectrpc.codec import proto_binary_codec, proto_json_codec
from connectrpc.compat import google_protobuf_binary_codec, google_protobuf_json_codec
from connectrpc.errors import ConnectError, ErrorDetail

from .. import anymsg as A
from .. import msgs, rpc
from ..core import Part, check
from ..gen import kitchen2_pb, kitchen3_pb, kitchen_pb, vt_pb
from .p04 import run_pair

PID = "P23"
LEVEL = "exploration"
RULE = "non-trivial: a message with at least one field set, altered bytes, or a detail that is looked up by more than its own class"
ASSUMPTIONS = [
    "google.protobuf (upb) decides what bytes mean",
    "negative zero in fields without presence, FieldMask paths that JSON cannot express and out-of-range well-known types are not generated",
]
QUICK_BUDGET = 100.0

TYPES = ["vt.kitchen.Sink", "vt.kitchen.Sink", "vt.kitchen.Sink", "vt.kitchen.Sink.Deep", "vt.kitchen2.Old", "vt.kitchen2.Old", "vt.kitchen3.New", "vt.v1.Req",
         *["google.protobuf." + n for n in A.WKTS]]
REGISTRY = Registry(kitchen_pb.desc(), kitchen2_pb.desc(), kitchen3_pb.desc(), vt_pb.desc(), *[getattr(W, n).desc() for n in A.WKTS])
ANYS = [*A.INNER, "vt.kitchen.Sink.Deep", "vt.kitchen2.Old", "vt.v1.Item"]


def codecs(reg: bool) -> dict:
    return {
        "proto": (proto_binary_codec(), google_protobuf_binary_codec()),
        "json": (proto_json_codec(REGISTRY) if reg else proto_json_codec(), google_protobuf_json_codec()),
    }


def case_strategy() -> st.SearchStrategy:
    def one(name: str, reg: bool) -> st.SearchStrategy:
        return st.fixed_dictionaries({
            "type": st.just(name), "registry": st.just(reg), "codec": st.sampled_from(["proto", "json"]),
            "value": A.message(name, 2, ANYS if reg else A.INNER),
            "json": st.fixed_dictionaries({"names": st.booleans(), "ints": st.booleans(), "defaults": st.booleans(), "indent": st.sampled_from([None, 0, 2])}),
            "array": st.booleans(),
            "grow": st.sampled_from([None] * 12 + [300, 5000, 70_000, 1_100_000]),
        })

    return st.tuples(st.sampled_from(TYPES), st.booleans()).flatmap(lambda t: one(*t))


def uses_extensions(v: Any) -> bool:
    if isinstance(v, dict):
        return any(k.startswith("[") or uses_extensions(x) for k, x in v.items())
    return isinstance(v, (list, tuple)) and any(uses_extensions(x) for x in v)


def ref_decode(codec: str, data: bytes, name: str, what: str) -> Any:
    cls = A.g_class(name)
    try:
        if codec == "proto":
            return cls.FromString(data)
        return json_format.Parse(data.decode("utf-8"), cls())
    except Exception as e:  # noqa: BLE001
        check(False, what, f"{name}: {e!r}: {data[:300]!r}")


def ref_encode(c: dict, g: Any) -> bytes:
    if c["codec"] == "proto":
        return g.SerializeToString(deterministic=True)
    j = c["json"]
    return json_format.MessageToJson(
        g, preserving_proto_field_name=j["names"], use_integers_for_enums=j["ints"], always_print_fields_with_no_presence=j["defaults"], indent=j["indent"], ensure_ascii=False
    ).encode()


def codec_test(c: dict, rec: Any) -> None:
    name, value, codec = c["type"], c["value"], c["codec"]
    if c["grow"] and name == "vt.kitchen.Sink":
        value = {**value, "f_string": "a, é: \"x\" " * (c["grow"] // 10), "f_bytes": msgs.expand_blob({"n": c["grow"], "pat": c["grow"] % 251})}
    if codec == "json" and not c["registry"] and uses_extensions(value):
        rec.label("extension without registry")
        return
    lib, compat = codecs(c["registry"])[codec]
    check(lib.name() == codec and compat.name() == codec, "codec-name", f"{lib.name()} {compat.name()}")
    g, p = A.g_make(name, value), A.py_make(name, value)
    want = A.g_norm(g)
    assert A.py_norm(p) == want, (A.py_norm(p), want)
    cls, gcls = A.PY[name], A.g_class(name)
    wrap = bytearray if c["array"] else bytes

    enc = lib.encode(p)
    check(isinstance(enc, bytes), "encoded-type", lambda: f"{type(enc)}")
    check(A.py_norm(p) == want, "encode-changes-message", lambda: f"{A.py_norm(p)} was {want}")
    check(A.g_norm(ref_decode(codec, enc, name, "encoded-unreadable")) == want, "encoded-differs", lambda: f"{enc!r} of {want}")
    genc = compat.encode(g)
    check(isinstance(genc, bytes), "encoded-type", lambda: f"compat {type(genc)}")
    check(A.g_norm(ref_decode(codec, genc, name, "compat-encoded-unreadable")) == want, "compat-encoded-differs", lambda: f"{genc!r} of {want}")

    sources = [("own", enc), ("compat", genc), ("reference", ref_encode(c, g))]
    for what, data in sources:
        d = lib.decode(wrap(data), cls)
        check(type(d) is cls, "decoded-type", lambda: f"{what}: {type(d)}")
        check(A.py_norm(d) == want, "decoded-differs", lambda: f"{what}: {data[:300]!r}: {A.py_norm(d)} want {want}")
        gd = compat.decode(wrap(data), gcls)
        check(type(gd) is gcls, "decoded-type", lambda: f"compat {what}: {type(gd)}")
        check(A.g_norm(gd) == want, "compat-decoded-differs", lambda: f"{what}: {data[:300]!r}: {A.g_norm(gd)} want {want}")
    if codec == "json":
        json.loads(enc), json.loads(genc)
    else:
        # fields this side does not know survive
        e = lib.decode(enc, W.Empty)
        again = lib.decode(lib.encode(e), cls)
        check(A.py_norm(again) == want, "unknown-fields-lost", lambda: f"{A.py_norm(again)} want {want}")
        ge = compat.decode(enc, A.g_class("google.protobuf.Empty"))
        gagain = compat.decode(compat.encode(ge), gcls)
        check(A.g_norm(gagain) == want, "unknown-fields-lost", lambda: f"compat {A.g_norm(gagain)} want {want}")
    rec.evals(3)
    rec.label(f"{codec}/{name.rpartition('.')[2]}")
    if value:
        rec.nontrivial(f"{codec} {name} {sorted(value)[:4]}")


# -- undecodable ------------------------------------------------------------------------------------


BAD_JSON = ["", " ", "{", "}", "{}x", "{}{}", "[]", "3", "null x", '"x"', "true", "{'a':1}", '{"f_int32":1,}', '{"f_int32":}', '{"f_int32":"x"}', '{"f_int32":2147483648}', '{"f_int32":1.5}',
            '{"f_uint32":-1}', '{"f_string":1}', '{"f_bool":"true"}', '{"f_bool":1}', '{"f_deep":[]}', '{"f_deep":"x"}', '{"r_bool":true}', '{"r_bool":[null]}', '{"m_string":[]}',
            '{"m_int32":{"x":1}}', '{"f_shade":"NO_SUCH"}', '{"w_timestamp":"yesterday"}', '{"w_timestamp":5}', '{"w_duration":"5"}', '{"f_bytes":5}', '{"f_double":"x"}', "\ufeff{}",
            '{"p_bool":true,"p_string":"x"}', '{"f_string":"\\ud800"}x', "// c\n{}", '{"f_string":"a\nb"}', '{"f_int64":"9223372036854775808"}', '{"f_uint64":"-1"}']


def bad_strategy() -> st.SearchStrategy:
    msg = A.message("vt.kitchen.Sink", 1)
    return st.one_of(
        st.fixed_dictionaries({"codec": st.just("json"), "how": st.just("text"), "text": st.sampled_from(BAD_JSON)}),
        st.fixed_dictionaries({"codec": st.just("json"), "how": st.just("prefix"), "value": msg, "at": st.floats(0, 1)}),
        st.fixed_dictionaries({"codec": st.just("json"), "how": st.just("bytes"), "value": msg, "junk": st.binary(min_size=1, max_size=4), "at": st.floats(0, 1)}),
        st.fixed_dictionaries({"codec": st.just("proto"), "how": st.just("prefix"), "value": msg, "at": st.floats(0, 1)}),
        st.fixed_dictionaries({"codec": st.just("proto"), "how": st.just("bytes"), "value": msg, "junk": st.binary(min_size=1, max_size=4), "at": st.floats(0, 1)}),
        st.fixed_dictionaries({"codec": st.just("proto"), "how": st.just("random"), "data": st.binary(min_size=1, max_size=24)}),
        st.fixed_dictionaries({"codec": st.just("proto"), "how": st.just("field"), "tag": st.sampled_from([0, 2, 3, 4, 6, 7, 14, 15, 0x72, 0x7A, 0x8A]), "tail": st.binary(max_size=3)}),
    )


def outcome(codec: Any, data: bytes, cls: Any, norm: Any) -> Any:
    try:
        return norm(codec.decode(data, cls))
    except Exception as e:  # noqa: BLE001
        return e


def bad_test(c: dict, rec: Any) -> None:
    name = "vt.kitchen.Sink"
    lib, compat = codecs(False)[c["codec"]]
    if c["how"] == "text":
        data = c["text"].encode()
    elif c["how"] == "random":
        data = c["data"]
    elif c["how"] == "field":
        data = bytes([c["tag"]]) + c["tail"]
    else:
        g = A.g_make(name, c["value"])
        full = ref_encode({"codec": c["codec"], "json": {"names": True, "ints": False, "defaults": False, "indent": None}}, g)
        at = int(c["at"] * len(full))
        data = full[:at] if c["how"] == "prefix" else full[:at] + c["junk"] + full[at + len(c["junk"]):]
    cls, gcls = A.PY[name], A.g_class(name)
    a, b = outcome(lib, data, cls, A.py_norm), outcome(compat, data, gcls, A.g_norm)
    try:
        ref: Any = gcls.FromString(data) if c["codec"] == "proto" else json_format.Parse(data.decode("utf-8"), gcls())
        ref = A.g_norm(ref)
    except Exception as e:  # noqa: BLE001
        ref = e
    bad = isinstance(ref, Exception)
    # the google codec has the same opinion as google.protobuf
    check(isinstance(b, Exception) == bad and (bad or b == ref), "compat-decodes-undecodable" if bad else "compat-decoded-differs", lambda: f"{data!r}: {b!r} but {ref!r}")
    # protobuf-py and google.protobuf are of different opinions about a few malformed values; what no
    # implementation may accept is incomplete data
    must = bad and (c["how"] == "text" and c["text"] in STRICT or c["how"] == "prefix")
    if must:
        check(isinstance(a, Exception), "decodes-undecodable", lambda: f"{data!r}: {a!r}")
    if not bad and not isinstance(a, Exception) and c["how"] in ("prefix", "text"):
        check(a == ref, "decoded-differs", lambda: f"{data!r}: {a!r} but {ref!r}")
    direct: Any
    try:
        # the codec has the same opinion as the message class it decodes with
        m = cls.from_binary(data) if c["codec"] == "proto" else cls.from_json(data)
        direct = A.py_norm(m)
    except Exception as e:  # noqa: BLE001
        direct = e
    if not (c["codec"] == "json" and (b"w_any" in data or b"r_any" in data)):
        same_outcome = isinstance(a, Exception) == isinstance(direct, Exception) and (isinstance(a, Exception) or a == direct)
        check(same_outcome, "decodes-undecodable", lambda: f"{data!r}: {a!r} but {direct!r}")
    rec.label(f"{c['codec']}/{c['how']}/" + ("refused" if bad else "accepted"))
    if bad:
        rec.nontrivial(f"{c['codec']} {data[:20]!r}")


STRICT = ["", " ", "{", "}", "{}x", "{}{}", "[]", "3", '"x"', "true", "{'a':1}", '{"f_int32":1,}', '{"f_int32":}', '{"f_int32":"x"}', '{"f_int32":2147483648}', '{"f_uint32":-1}', '{"f_string":1}',
          '{"f_bool":"true"}', '{"f_deep":[]}', '{"r_bool":true}', '{"m_string":[]}', '{"f_shade":"NO_SUCH"}', '{"w_timestamp":"yesterday"}', '{"f_double":"x"}']


# -- details ---------------------------------------------------------------------------------------


LOOKUP = ["vt.kitchen.Sink.Deep", "vt.kitchen2.Old", "google.protobuf.StringValue", "google.protobuf.Struct", "google.protobuf.Empty", "vt.v1.Item", "google.protobuf.Duration"]
PREFIX = ["type.googleapis.com/", "type.googleapis.com/", "example.com/", "types.example.com/some/path/", "/", ""]


def detail_strategy() -> st.SearchStrategy:
    good = st.sampled_from(LOOKUP).flatmap(lambda n: st.fixed_dictionaries({"how": st.sampled_from(["message", "message", "detail", "any"]), "type": st.just(n), "value": A.message(n, 1), "prefix": st.sampled_from(PREFIX)}))
    raw = st.fixed_dictionaries({
        "how": st.just("raw"), "type": st.sampled_from([*LOOKUP, "acme.v1.Missing", "vt.v1.Req"]), "prefix": st.sampled_from(PREFIX),
        "bytes": st.one_of(st.sampled_from([b"\x0a\xff", b"\x0a\x05ab", b"\x07", b"\x00", b"\xff\xff", b"\x0a\x02\xff\xfe", b""]), st.binary(max_size=8)),
    })
    return st.fixed_dictionaries({
        "details": st.lists(st.one_of(good, good, raw), min_size=1, max_size=3),
        "ask": st.sampled_from(LOOKUP),
        "via": st.sampled_from(["local", "connect", "connect-stream", "grpc", "grpcweb"]),
        "flavour": st.sampled_from(["async", "sync"]),
        "iter": st.booleans(),
    })


def make_detail(d: dict) -> Any:
    if d["how"] == "raw":
        return W.Any(type_url=d["prefix"] + d["type"], value=d["bytes"])
    m = A.py_make(d["type"], d["value"])
    if d["how"] == "any":
        a = W.Any.pack(m)
        return W.Any(type_url=d["prefix"] + d["type"], value=a.value)
    return ErrorDetail(m) if d["how"] == "detail" else m


def lookup(d: Any, *arg: Any) -> Any:
    try:
        return d.value(*arg)
    except Exception as e:  # noqa: BLE001
        check(False, "detail-lookup-raises", f"{d.type_name} {bytes(d.message_bytes)!r} looked up by {arg}: {e!r}")


def same(m: Any, want: tuple) -> bool:
    return m is not None and A.py_norm(m) == want


def detail_test(c: dict, rec: Any) -> None:
    made = [make_detail(d) for d in c["details"]]
    sent = ConnectError(Code.INTERNAL, "why", iter(made) if c["iter"] else made)
    if c["via"] == "local":
        err: Any = sent
    else:
        err = transfer(c, sent)
    check(len(err.details) == len(made), "detail-count", lambda: f"{len(err.details)} of {len(made)}")
    for d, got in zip(c["details"], err.details, strict=True):
        what = f"{c['via']} {d}"
        check(got.type_name == d["type"], "detail-type-name", lambda: f"{got.type_name}: {what}")
        g = None
        if d["how"] == "raw":
            check(bytes(got.message_bytes) == d["bytes"], "detail-bytes", lambda: f"{got.message_bytes!r}: {what}")
            try:
                cls = A.g_class(d["type"])
                g = cls.FromString(d["bytes"])
            except Exception:  # noqa: BLE001
                g = None
        else:
            g = A.g_make(d["type"], d["value"])
            check(A.g_norm(A.g_class(d["type"]).FromString(bytes(got.message_bytes))) == A.g_norm(g), "detail-bytes", lambda: f"{got.message_bytes!r}: {what}")
        known = d["type"] in A.PY
        readable = known
        if known and d["how"] == "raw":
            try:
                direct = A.PY[d["type"]].from_binary(d["bytes"])
                if g is not None:
                    readable = A.py_norm(direct) == A.g_norm(g)
                    if not readable:
                        rec.label("runtimes disagree")
                        continue
                else:
                    rec.label("runtimes disagree")
                    continue
            except Exception:  # noqa: BLE001
                readable = False
        local = c["via"] == "local" and d["how"] in ("message", "detail")
        if known:
            cls = A.PY[d["type"]]
            for key, arg in (("type", cls), ("descriptor", cls.desc()), ("registry", REGISTRY)):
                v = lookup(got, arg)
                if readable:
                    check(type(v) is cls and same(v, A.g_norm(g)), "detail-value", lambda: f"by {key}: {v!r}: {what}")
                else:
                    check(v is None, "detail-undecodable", lambda: f"by {key}: {v!r}: {what}")
        v = lookup(got, Registry())
        check(v is None or local, "detail-value-of-empty-registry", lambda: f"{v!r}: {what}")
        v = lookup(got)
        check(same(v, A.g_norm(g)) if local else v is None, "detail-value-without-type", lambda: f"{v!r}: {what}")
        if not known:
            check(lookup(got, REGISTRY) is None, "detail-value", lambda: what)
        if c["ask"] != d["type"]:
            ask = A.PY[c["ask"]]
            for arg in (ask, ask.desc()):
                v = lookup(got, arg)
                check(v is None, "detail-of-another-type", lambda: f"{c['ask']}: {v!r}: {what}")
            rec.nontrivial(f"{c['via']} {d['how']} {d['type']} {d['prefix']}")
        rec.label(f"{c['via']}/{d['how']}")
    rec.evals(len(made))


class Raises(rpc.Script):
    def __init__(self, error: Exception) -> None:
        super().__init__(ress=[{}])
        self.raised = error

    def _fail(self) -> None:
        raise self.raised


def transfer(c: dict, sent: Any) -> Any:
    """What the client raises when the handler raises sent."""
    flavour = {"async": "asgi", "sync": "wsgi"}[c["flavour"]]
    via = c["via"].split("-")
    kind = "server" if len(via) > 1 else "unary"
    app = rpc.make_app(flavour, Raises(sent))
    case = {"pair": f"{c['flavour']}-{flavour}", "protocol": via[0], "codec": "proto", "send": None, "accept": ["gzip"], "plan": [], "kind": kind}
    res = run_pair(case, None, app, [rpc.mk_req("py", {})])  # type: ignore[arg-type]
    check(isinstance(res.error, ConnectError) and res.error.message == "why" and res.error.code is Code.INTERNAL, "error-lost", lambda: repr(res))
    return res.error


# -- required fields that are not set ----------------------------------------------------------------


def incomplete_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries({"codec": st.sampled_from(["proto", "json"]), "value": A.message("vt.kitchen2.Old", 2), "nested": st.booleans()})


def incomplete_test(c: dict, rec: Any) -> None:
    """Either a message is refused or it is what its bytes are decoded to again."""
    value = {k: v for k, v in c["value"].items() if k != "must"}
    if c["nested"]:
        value = {"must": "x", "bunch": {"olds": [value]}}
    name = "vt.kitchen2.Old"
    lib, compat = codecs(True)[c["codec"]]
    for codec, cls, m, norm in ((lib, A.PY[name], A.py_make(name, value), A.py_norm), (compat, A.g_class(name), A.g_make(name, value), A.g_norm)):
        want = norm(m)
        try:
            data = codec.encode(m)
        except Exception:  # noqa: BLE001
            rec.label("refused")
            continue
        rec.label("encoded")
        try:
            got = codec.decode(data, cls)
        except Exception as e:  # noqa: BLE001
            check(False, "encoded-is-undecodable", f"{codec!r}: {data!r}: {e!r}")
        check(norm(got) == want, "decoded-differs", lambda: f"{codec!r} {data!r}: {norm(got)} want {want}")
    rec.nontrivial(f"incomplete {c['codec']} {sorted(value)[:4]}")


PARTS = [
    Part("incomplete", incomplete_strategy, incomplete_test, quick=1000),
    Part("codecs", case_strategy, codec_test, quick=6000),
    Part("undecodable", bad_strategy, bad_test, quick=4000),
    Part("details", detail_strategy, detail_test, quick=3000),
]
