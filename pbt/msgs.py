"""Generated messages as plain data, and two independent ways of turning them into bytes and
back (protobuf-py, used by the library; google.protobuf, used as reference)."""

from __future__ import annotations

import math
import random
from typing import Any

from google.protobuf import json_format
from hypothesis import strategies as st
from protobuf import Oneof
from protobuf.wkt import StringValue, Timestamp

from .gen import vt_pb as P
from .gen import vt_pb2 as G

TEXT = st.text(alphabet=st.characters(exclude_categories=("Cs",)), max_size=12)
TEXTS = st.one_of(
    st.sampled_from(["", "a", "é", "\x00", "\u2028", "日本語", "😀 emoji", '"quoted"\\', "\r\n\t", "%41+&="]),
    TEXT,
)
I32 = st.one_of(st.sampled_from([0, 1, -1, 2**31 - 1, -(2**31)]), st.integers(-(2**31), 2**31 - 1))
U32 = st.one_of(st.sampled_from([0, 1, 2**32 - 1]), st.integers(0, 2**32 - 1))
I64 = st.one_of(st.sampled_from([0, 1, -1, 2**53 + 1, 2**63 - 1, -(2**63)]), st.integers(-(2**63), 2**63 - 1))
U64 = st.one_of(st.sampled_from([0, 1, 2**53 + 1, 2**64 - 1]), st.integers(0, 2**64 - 1))


def _blob(n: int, pat: int) -> dict:
    return {"n": n, "pat": pat}


def expand_blob(b: Any) -> bytes:
    """bytes, or {n, pat}: n pseudo-random (pat odd) or repetitive (pat even) bytes."""
    if isinstance(b, bytes):
        return b
    n, pat = b["n"], b["pat"]
    if pat % 2 == 0:
        return (bytes([pat & 0xFF, (pat >> 1) & 0xFF, 7]) * (n // 3 + 1))[:n]
    return random.Random(pat).randbytes(n)


SMALL_BLOB = st.binary(max_size=24)


def blobs(big: int = 0) -> st.SearchStrategy:
    if not big:
        return SMALL_BLOB
    sizes = [s for s in (100, 4090, 4095, 4096, 4097, 8191, 16384, 65535, 65536, 70000, 262144) if s <= big]
    return st.one_of(
        SMALL_BLOB,
        SMALL_BLOB,
        st.builds(_blob, st.one_of(st.sampled_from(sizes), st.integers(0, big)), st.integers(0, 255)),
    )


ITEM = st.recursive(
    st.builds(lambda n, c: {"name": n, "count": c, "children": []}, TEXTS, I32),
    lambda ch: st.builds(
        lambda n, c, k: {"name": n, "count": c, "children": k}, TEXTS, I32, st.lists(ch, max_size=2)
    ),
    max_leaves=3,
)


def _opt(key: str, s: st.SearchStrategy) -> st.SearchStrategy:
    return st.one_of(st.just({}), s.map(lambda v: {key: v}))


def _merge(*ds: dict) -> dict:
    out: dict = {}
    for d in ds:
        out.update(d)
    return out


def reqs(big: int = 0) -> st.SearchStrategy:
    full = st.builds(
        _merge,
        _opt("text", TEXTS),
        _opt("data", blobs(big)),
        _opt("num", I64),
        _opt("items", st.lists(ITEM, max_size=3)),
        _opt("tags", st.dictionaries(TEXTS, I32, max_size=3)),
        _opt(
            "kind",
            st.one_of(
                st.tuples(st.just("alpha"), TEXTS),
                st.tuples(st.just("beta"), U32),
                st.tuples(st.just("gamma"), st.booleans()),
            ),
        ),
        _opt("ratio", st.one_of(st.sampled_from([0.0, -0.0, 1.5, 1e300, 5e-324]), st.floats(allow_nan=False))),
        _opt("color", st.sampled_from([0, 1, 5])),
        _opt("at", st.tuples(st.integers(-62135596800, 253402300799), st.integers(0, 999_999_999))),
        _opt("fixeds", st.lists(U64, max_size=3)),
    )
    small = st.builds(_merge, _opt("text", TEXTS), _opt("data", blobs(big)), _opt("num", I64))
    return st.one_of(small, small, full)


def ress(big: int = 0) -> st.SearchStrategy:
    full = st.builds(
        _merge,
        _opt("text", TEXTS),
        _opt("data", blobs(big)),
        _opt("num", I64),
        _opt("items", st.lists(ITEM, max_size=3)),
        _opt("tags", st.dictionaries(I32, TEXTS, max_size=3)),
        _opt(
            "kind",
            st.one_of(
                st.tuples(st.just("alpha"), TEXTS),
                st.tuples(st.just("beta"), U32),
                st.tuples(st.just("gamma"), ITEM),
            ),
        ),
        _opt("flag", st.booleans()),
        _opt("colors", st.lists(st.sampled_from([0, 1, 5]), max_size=3)),
        _opt("wrapped", TEXTS),
        _opt("big", U64),
    )
    small = st.builds(_merge, _opt("text", TEXTS), _opt("data", blobs(big)), _opt("num", I64))
    return st.one_of(small, small, full)


# -- plain -> protobuf-py ------------------------------------------------------------------


def _item(d: dict) -> Any:
    return P.Item(name=d["name"], count=d["count"], children=[_item(c) for c in d["children"]])


def py_req(d: dict) -> Any:
    kw = dict(d)
    if "data" in kw:
        kw["data"] = expand_blob(kw["data"])
    if "items" in kw:
        kw["items"] = [_item(i) for i in kw["items"]]
    if "kind" in kw:
        kw["kind"] = Oneof(*kw["kind"])
    if "color" in kw:
        kw["color"] = P.Color(kw["color"])
    if "at" in kw:
        kw["at"] = Timestamp(seconds=kw["at"][0], nanos=kw["at"][1])
    return P.Req(**kw)


def py_res(d: dict) -> Any:
    kw = dict(d)
    if "data" in kw:
        kw["data"] = expand_blob(kw["data"])
    if "items" in kw:
        kw["items"] = [_item(i) for i in kw["items"]]
    if "kind" in kw:
        f, v = kw["kind"]
        kw["kind"] = Oneof(f, _item(v) if f == "gamma" else v)
    if "colors" in kw:
        kw["colors"] = [P.Color(c) for c in kw["colors"]]
    if "wrapped" in kw:
        kw["wrapped"] = StringValue(value=kw["wrapped"])
    return P.Res(**kw)


# -- plain -> google ---------------------------------------------------------------------


def _gitem(dst: Any, d: dict) -> None:
    dst.name, dst.count = d["name"], d["count"]
    for c in d["children"]:
        _gitem(dst.children.add(), c)


def g_req(d: dict) -> Any:
    m = G.Req()
    _g_common(m, d)
    if "kind" in d:
        setattr(m, *d["kind"])
    if "ratio" in d:
        m.ratio = d["ratio"]
    if "color" in d:
        m.color = d["color"]
    if "at" in d:
        m.at.SetInParent()
        m.at.seconds, m.at.nanos = d["at"]
    m.fixeds.extend(d.get("fixeds", ()))
    return m


def g_res(d: dict) -> Any:
    m = G.Res()
    _g_common(m, d)
    if "kind" in d:
        f, v = d["kind"]
        if f == "gamma":
            m.gamma.SetInParent()
            _gitem(m.gamma, v)
        else:
            setattr(m, f, v)
    if "flag" in d:
        m.flag = d["flag"]
    m.colors.extend(d.get("colors", ()))
    if "wrapped" in d:
        m.wrapped.SetInParent()
        m.wrapped.value = d["wrapped"]
    if "big" in d:
        m.big = d["big"]
    return m


def _g_common(m: Any, d: dict) -> None:
    if "text" in d:
        m.text = d["text"]
    if "data" in d:
        m.data = expand_blob(d["data"])
    if "num" in d:
        m.num = d["num"]
    for i in d.get("items", ()):
        _gitem(m.items.add(), i)
    for k, v in d.get("tags", {}).items():
        m.tags[k] = v


# -- normal form of a message (either runtime) ------------------------------------------------


def _nitem(i: Any) -> tuple:
    return (i.name, i.count, tuple(_nitem(c) for c in i.children))


def _f(x: float) -> str:
    return "nan" if math.isnan(x) else float(x).hex()


def norm(m: Any) -> tuple:
    """Field-by-field normal form; equal for equal messages of either runtime."""
    google = isinstance(m, (G.Req, G.Res))
    is_req = isinstance(m, (P.Req, G.Req))
    if not google and not isinstance(m, (P.Req, P.Res)):
        return ("?", type(m).__name__)
    if google:
        which = m.WhichOneof("kind")
        kind = (which, getattr(m, which)) if which else None
    else:
        kind = (m.kind.field, m.kind.value) if m.kind is not None else None
    if kind and not isinstance(kind[1], (str, int, bool)):
        kind = (kind[0], _nitem(kind[1]))
    out: list[Any] = [
        "Req" if is_req else "Res",
        m.text,
        bytes(m.data),
        m.num,
        tuple(_nitem(i) for i in m.items),
        tuple(sorted(m.tags.items())),
        kind,
    ]
    if is_req:
        has_ratio = m.HasField("ratio") if google else m.has_field("ratio")
        has_at = m.HasField("at") if google else m.at is not None
        out += [
            _f(m.ratio) if has_ratio else None,
            int(m.color.value if hasattr(m.color, "value") else m.color),
            (m.at.seconds, m.at.nanos) if has_at else None,
            tuple(m.fixeds),
        ]
    else:
        has_flag = m.HasField("flag") if google else m.has_field("flag")
        has_w = m.HasField("wrapped") if google else m.wrapped is not None
        out += [
            m.flag if has_flag else None,
            tuple(int(c.value if hasattr(c, "value") else c) for c in m.colors),
            m.wrapped.value if has_w else None,
            m.big,
        ]
    return tuple(out)


def nreq(d: dict) -> tuple:
    return norm(g_req(d))


def nres(d: dict) -> tuple:
    return norm(g_res(d))


# -- reference codecs ------------------------------------------------------------------------


def ref_encode(codec: str, gmsg: Any) -> bytes:
    if codec == "proto":
        return gmsg.SerializeToString(deterministic=True)
    return json_format.MessageToJson(gmsg).encode()


def try_decode(codec: str, data: bytes, cls: Any) -> tuple | None:
    """Normalised message, or None when the reference implementation refuses the bytes."""
    try:
        if codec == "proto":
            return norm(cls.FromString(data))
        return norm(json_format.Parse(data.decode("utf-8"), cls()))
    except Exception:  # noqa: BLE001
        return None


def ref_decode(codec: str, data: bytes, cls: Any) -> Any:
    from .core import Violation

    try:
        if codec == "proto":
            return cls.FromString(data)
        return json_format.Parse(data.decode("utf-8"), cls())
    except Exception as e:
        raise Violation("wire:undecodable-message", f"{codec}: {e!r}: {data[:200]!r}") from e
