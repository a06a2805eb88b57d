"""Values of any message type as plain data, built and read back through either protobuf runtime
by walking google.protobuf descriptors."""

from __future__ import annotations

import math
import struct
from typing import Any

import protobuf.wkt as W
from google.protobuf import descriptor as D
from google.protobuf import any_pb2, descriptor_pool, message_factory
from hypothesis import strategies as st
from protobuf import Oneof

from . import msgs
from .gen import kitchen2_pb as P2
from .gen import kitchen2_pb2 as G2
from .gen import kitchen3_pb as P3
from .gen import kitchen3_pb2 as G3
from .gen import kitchen_pb as P1
from .gen import kitchen_pb2 as G1

F = D.FieldDescriptor
POOL = descriptor_pool.Default()
assert G1 and G2 and G3

PY: dict[str, Any] = {
    "vt.kitchen.Sink": P1.Sink, "vt.kitchen.Sink.Deep": P1.Sink.Deep, "vt.kitchen2.Old": P2.Old, "vt.kitchen2.Old.Bunch": P2.Old.Bunch,
    "vt.kitchen3.New": P3.New, "vt.v1.Item": msgs.P.Item, "vt.v1.Req": msgs.P.Req, "vt.v1.Res": msgs.P.Res,
}
WKTS = ["Timestamp", "Duration", "Struct", "Value", "ListValue", "FieldMask", "Any", "Empty", "DoubleValue", "FloatValue", "Int64Value", "UInt64Value",
        "Int32Value", "UInt32Value", "BoolValue", "StringValue", "BytesValue"]
for _n in WKTS:
    PY["google.protobuf." + _n] = getattr(W, _n)
PY_ENUM = {"vt.kitchen.Shade": P1.Shade, "vt.kitchen.Sink.Inner": P1.Sink.Inner, "vt.kitchen2.Mood": P2.Mood, "vt.kitchen3.Open": P3.Open, "google.protobuf.NullValue": W.NullValue,
           "vt.v1.Color": msgs.P.Color}
EXTENSIONS = {"vt.kitchen2.ext_number": P2.ext_ext_number, "vt.kitchen2.ext_text": P2.ext_ext_text, "vt.kitchen2.ext_old": P2.ext_ext_old, "vt.kitchen2.ext_moods": P2.ext_ext_moods} if hasattr(P2, "ext_ext_number") else {}


def desc(name: str) -> Any:
    return POOL.FindMessageTypeByName(name)


def g_class(name: str) -> Any:
    return message_factory.GetMessageClass(desc(name))


FLT_MAX = struct.unpack("<f", b"\xff\xff\x7f\x7f")[0]


def f32(x: float) -> float:
    try:
        v = struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf
    # google.protobuf cannot read the JSON that it writes for the largest float itself
    # ("3.4028235e+38 is too large").
    return math.copysign(3.4028232635611926e38, v) if abs(v) == FLT_MAX else v


DOUBLES = st.one_of(
    st.sampled_from([0.0, -0.0, 1.0, -1.5, 0.1, 1e300, -1e-300, 5e-324, 1.7976931348623157e308, math.inf, -math.inf, math.nan, 2.0**53, 2.0**53 + 2, 1e21, 1e16, 123456789.123]),
    st.floats(),
)
FLOATS = DOUBLES.map(f32)
BYTES = st.one_of(st.sampled_from([b"", b"\x00", b"\xff\xfe", b"\xfb\xef\xbe", b"a" * 3, b"ab", b"\xd8\x00"]), st.binary(max_size=10))
SCALARS = {
    F.TYPE_DOUBLE: DOUBLES, F.TYPE_FLOAT: FLOATS, F.TYPE_INT32: msgs.I32, F.TYPE_SINT32: msgs.I32, F.TYPE_SFIXED32: msgs.I32, F.TYPE_INT64: msgs.I64,
    F.TYPE_SINT64: msgs.I64, F.TYPE_SFIXED64: msgs.I64, F.TYPE_UINT32: msgs.U32, F.TYPE_FIXED32: msgs.U32, F.TYPE_UINT64: msgs.U64, F.TYPE_FIXED64: msgs.U64,
    F.TYPE_BOOL: st.booleans(), F.TYPE_STRING: msgs.TEXTS, F.TYPE_BYTES: BYTES,
}
JSON = st.recursive(
    st.one_of(st.just({"null_value": 0}), st.booleans().map(lambda b: {"bool_value": b}), DOUBLES.filter(math.isfinite).map(lambda n: {"number_value": n}), msgs.TEXTS.map(lambda s: {"string_value": s})),
    lambda ch: st.one_of(
        st.lists(ch, max_size=3).map(lambda v: {"list_value": {"values": v} if v else {}}),
        st.lists(st.tuples(msgs.TEXTS, ch), max_size=2, unique_by=lambda t: t[0]).map(lambda v: {"struct_value": {"fields": v} if v else {}}),
    ),
    max_leaves=4,
)
PATH = st.lists(st.sampled_from(["a", "foo_bar", "x_y_z", "b2", "user"]), min_size=1, max_size=2).map(".".join)
INNER = ["google.protobuf.StringValue", "google.protobuf.Duration", "google.protobuf.Timestamp", "google.protobuf.Struct", "google.protobuf.Empty", "google.protobuf.FieldMask", "google.protobuf.Any", "google.protobuf.BytesValue", "google.protobuf.Value"]


def special(name: str, anys: list[str]) -> st.SearchStrategy | None:
    short = name.removeprefix("google.protobuf.")
    if short == "Timestamp":
        return fields([("seconds", st.one_of(st.sampled_from([0, 1, -1, -62135596800, 253402300799]), st.integers(-62135596800, 253402300799))),
                       ("nanos", st.one_of(st.sampled_from([0, 1, 1000, 1_000_000, 500_000_000, 999_999_999]), st.integers(0, 999_999_999)))])
    if short == "Duration":
        return st.tuples(st.one_of(st.sampled_from([0, 1, 315576000000]), st.integers(0, 315576000000)), st.one_of(st.sampled_from([0, 1, 1_000_000, 999_999_999]), st.integers(0, 999_999_999)), st.sampled_from([1, -1])).map(
            lambda t: {k: v * t[2] for k, v in (("seconds", t[0]), ("nanos", t[1])) if v and not (k == "nanos" and t[0] == 315576000000)}
        )
    if short == "Struct":
        return st.lists(st.tuples(msgs.TEXTS, JSON), max_size=3, unique_by=lambda t: t[0]).map(lambda v: {"fields": v} if v else {})
    if short == "Value":
        return JSON
    if short == "ListValue":
        return st.lists(JSON, max_size=3).map(lambda v: {"values": v} if v else {})
    if short == "FieldMask":
        return st.lists(PATH, max_size=3).map(lambda v: {"paths": v} if v else {})
    if short == "Any":
        return st.sampled_from(anys).flatmap(lambda n: message(n, 1, anys).map(lambda v: {"@type": n, "@value": v}))
    return None


def fields(items: list) -> st.SearchStrategy:
    """Some of the fields; values equal to zero are left out (they have no presence)."""
    return st.tuples(*[s for _, s in items]).map(lambda t: {k: v for (k, _), v in zip(items, t, strict=True) if v != 0})


_CACHE: dict = {}


def message(name: str, depth: int = 2, anys: list[str] = INNER) -> st.SearchStrategy:
    """Plain values of the message type."""
    key = (name, depth, tuple(anys))
    if key not in _CACHE:
        _CACHE[key] = st.deferred(lambda: _message(name, depth, anys))
    return _CACHE[key]


def _singular(f: Any, depth: int, anys: list[str]) -> st.SearchStrategy:
    if f.type in (F.TYPE_MESSAGE, F.TYPE_GROUP):
        return message(f.message_type.full_name, depth - 1, anys)
    if f.type == F.TYPE_ENUM:
        return st.sampled_from([v.number for v in f.enum_type.values])
    return SCALARS[f.type]


def is_map(f: Any) -> bool:
    return f.type == F.TYPE_MESSAGE and f.message_type.GetOptions().map_entry


def _message(name: str, depth: int, anys: list[str]) -> st.SearchStrategy:
    s = special(name, anys)
    if s is not None:
        return s
    d = desc(name)
    usable = []
    for f in d.fields:
        target = f.message_type
        if is_map(f):
            target = f.message_type.fields_by_name["value"].message_type
        if target is not None and depth <= 0 and not target.full_name.startswith("google.protobuf."):
            continue
        usable.append(f)
    required = [f for f in usable if f.is_required]
    names = [f.name for f in usable]

    @st.composite
    def build(draw: Any) -> dict:
        out: dict = {}
        if len(names) > 6:
            chosen = draw(st.lists(st.sampled_from(names), max_size=6 if depth > 1 else 2, unique=True))
        else:
            chosen = [n for n in names if draw(st.booleans())]
        for r in required:
            if r.name not in chosen:
                chosen = [*chosen, r.name]
        taken: set = set()
        for n in chosen:
            f = d.fields_by_name[n]
            o = f.containing_oneof
            if o is not None and not n.startswith("o_") and len(o.fields) > 1:
                if o.name in taken:
                    continue
                taken.add(o.name)
            if is_map(f):
                k, v = f.message_type.fields_by_name["key"], f.message_type.fields_by_name["value"]
                pairs = draw(st.lists(st.tuples(_singular(k, depth, anys), _singular(v, depth, anys)), min_size=1, max_size=2, unique_by=lambda t: t[0]))
                out[n] = pairs
            elif f.is_repeated:
                out[n] = draw(st.lists(_singular(f, depth, anys), min_size=1, max_size=3))
            else:
                v = draw(_singular(f, depth, anys))
                if not f.has_presence and v == f.default_value:  # (-0.0 too)
                    continue
                out[n] = v
        if name == "vt.kitchen2.Old" and EXTENSIONS and depth > 1:
            for n in draw(st.lists(st.sampled_from(sorted(EXTENSIONS)), max_size=2, unique=True)):
                f = POOL.FindExtensionByName(n)
                v = _singular(f, depth, anys)
                out["[" + n + "]"] = draw(st.lists(v, min_size=1, max_size=2) if f.is_repeated else v)
        return out

    return build()


# -- google.protobuf ---------------------------------------------------------------------------


def g_make(name: str, plain: dict) -> Any:
    m = g_class(name)()
    g_fill(m, plain)
    return m


def g_fill(m: Any, plain: dict) -> None:
    if "@type" in plain:
        m.Pack(g_make(plain["@type"], plain["@value"]))
        return
    for k, v in plain.items():
        if k.startswith("["):
            f = POOL.FindExtensionByName(k[1:-1])
            if f.is_repeated:
                m.Extensions[f].extend(v)
            elif f.message_type is not None:
                m.Extensions[f].SetInParent()
                g_fill(m.Extensions[f], v)
            else:
                m.Extensions[f] = v
            continue
        f = m.DESCRIPTOR.fields_by_name[k]
        if is_map(f):
            vf = f.message_type.fields_by_name["value"]
            for mk, mv in v:
                if vf.message_type is not None:
                    g_fill(getattr(m, k)[mk], mv)
                else:
                    getattr(m, k)[mk] = mv
        elif f.is_repeated:
            for x in v:
                if f.message_type is not None:
                    g_fill(getattr(m, k).add(), x)
                else:
                    getattr(m, k).append(x)
        elif f.message_type is not None:
            getattr(m, k).SetInParent()
            g_fill(getattr(m, k), v)
        else:
            setattr(m, k, v)


def _leaf(f: Any, v: Any) -> Any:
    if isinstance(v, float):
        if f.type == F.TYPE_FLOAT:
            v = f32(v)
        return "nan" if math.isnan(v) else v.hex()
    if isinstance(v, bool):
        return v
    if f.type == F.TYPE_ENUM:
        return int(v)
    return v


def g_norm(m: Any) -> tuple:
    """Normal form of a google.protobuf message."""
    if isinstance(m, any_pb2.Any):
        return _any(m.type_url, m.value)
    out = []
    for f, v in m.ListFields():
        name = "[" + f.full_name + "]" if f.is_extension else f.name
        if is_map(f):
            vf = f.message_type.fields_by_name["value"]
            kf = f.message_type.fields_by_name["key"]
            out.append((name, tuple(sorted((str(_leaf(kf, k)), g_norm(x) if vf.message_type is not None else _leaf(vf, x)) for k, x in v.items()))))
        elif f.is_repeated:
            out.append((name, tuple(g_norm(x) if f.message_type is not None else _leaf(f, x) for x in v)))
        else:
            out.append((name, g_norm(v) if f.message_type is not None else _leaf(f, v)))
    return (m.DESCRIPTOR.full_name, *sorted(out))


def _any(url: str, value: bytes) -> tuple:
    n = url.rpartition("/")[2]
    try:
        return ("any", n, g_norm(g_class(n).FromString(bytes(value))))
    except KeyError:
        return ("any", n, bytes(value))


# -- protobuf-py ---------------------------------------------------------------------------------


def _py_value(f: Any, v: Any) -> Any:
    if f.message_type is not None:
        return py_make(f.message_type.full_name, v)
    if f.type == F.TYPE_ENUM:
        return PY_ENUM[f.enum_type.full_name](v)
    return v


def py_make(name: str, plain: dict) -> Any:
    cls = PY[name]
    if "@type" in plain:
        return W.Any.pack(py_make(plain["@type"], plain["@value"]))
    d = desc(name)
    kw: dict = {}
    ext: list = []
    for k, v in plain.items():
        if k.startswith("["):
            f = POOL.FindExtensionByName(k[1:-1])
            ext.append((EXTENSIONS[k[1:-1]], [_py_value(f, x) for x in v] if f.is_repeated else _py_value(f, v)))
            continue
        f = d.fields_by_name[k]
        o = f.containing_oneof
        if is_map(f):
            vf = f.message_type.fields_by_name["value"]
            kw[k] = {mk: _py_value(vf, mv) for mk, mv in v}
        elif f.is_repeated:
            kw[k] = [_py_value(f, x) for x in v]
        elif o is not None and not (len(o.fields) == 1 and o.name.startswith("_")):
            kw[o.name] = Oneof(k, _py_value(f, v))
        else:
            kw[k] = _py_value(f, v)
    m = cls(**kw)
    for e, v in ext:
        m[e] = v
    return m


def py_norm(m: Any) -> tuple:
    """Normal form of a protobuf-py message."""
    name = m.desc().type_name
    if isinstance(m, W.Any):
        return _any(m.type_url, m.value)
    d = desc(name)

    def one(f: Any, v: Any) -> Any:
        return py_norm(v) if f.message_type is not None else _leaf(f, v)

    out = []
    for pf in m:
        f = d.fields_by_name[pf.name]
        v = m[pf]
        if is_map(f):
            vf = f.message_type.fields_by_name["value"]
            kf = f.message_type.fields_by_name["key"]
            out.append((f.name, tuple(sorted((str(_leaf(kf, k)), one(vf, x)) for k, x in v.items()))))
        elif f.is_repeated:
            out.append((f.name, tuple(one(f, x) for x in v)))
        else:
            out.append((f.name, one(f, v)))
    if name == "vt.kitchen2.Old":
        for n, e in EXTENSIONS.items():
            if e in m:
                f = POOL.FindExtensionByName(n)
                v = m[e]
                out.append(("[" + n + "]", tuple(one(f, x) for x in v) if f.is_repeated else one(f, v)))
    return (name, *sorted(out))
