"""P07: clients map every possible HTTP response to the specified outcome."""

from __future__ import annotations

import functools
import gzip
import json
import re
from dataclasses import dataclass, field
from typing import Any

import pyqwest
from hypothesis import strategies as st

from connectrpc.client import ResponseMetadata

from .. import http, msgs, plugins, rawnet, rpc, vclock, wire
from ..core import Part, check
from .p08 import body_op
from .p10 import debatable, reference

PID = "P07"
LEVEL = "exploration"
RULE = (
    "non-trivial: the response is not a plain conforming success (it carries an error, a non-200 status, a "
    "deviation the reference recognises, a transport failure or reset), or it was mutated and still means something"
)
ASSUMPTIONS = [
    "the reference reading of a response is written from the Connect and gRPC protocol texts and uses google.protobuf, zlib, brotli, zstandard",
    "left open (any outcome, but only RPC errors raised): content types that differ only in case or parameters on streams, reserved envelope flags, JSON null/0/empty error members, repeated or contradictory statuses, payloads on which the two protobuf runtimes disagree",
    "the transport is pyqwest's interface with generated responses; transport exceptions are ordinary Exception subclasses",
]
QUICK_BUDGET = 100.0
ACCEPTED = ("gzip", "br", "zstd")
RESETS = {
    "NO_ERROR": "internal", "PROTOCOL_ERROR": "internal", "INTERNAL_ERROR": "internal",
    "FLOW_CONTROL_ERROR": "internal", "SETTINGS_TIMEOUT": "internal", "FRAME_SIZE_ERROR": "internal",
    "COMPRESSION_ERROR": "internal", "CONNECT_ERROR": "internal", "REFUSED_STREAM": "unavailable",
    "CANCEL": "canceled", "ENHANCE_YOUR_CALM": "resource_exhausted", "INADEQUATE_SECURITY": "permission_denied",
    "STREAM_CLOSED": None, "HTTP_1_1_REQUIRED": None,
}
EXCS: dict[str, Any] = {
    "ConnectionError": ConnectionError, "OSError": OSError, "RuntimeError": RuntimeError, "ValueError": ValueError,
    "ReadError": pyqwest.ReadError, "WriteError": pyqwest.WriteError, "TimeoutError": TimeoutError, "KeyError": KeyError,
    "EOFError": EOFError, "StopIteration-like": LookupError,
}
STATUS = st.one_of(
    st.just(200), st.just(200), st.just(200), st.just(200),
    st.sampled_from([201, 204, 206, 301, 304, 400, 401, 403, 404, 405, 408, 409, 412, 413, 415, 418, 429, 431, 499, 500, 501, 502, 503, 504, 505, 511, 599]),
    st.integers(200, 599),
)
CTYPES = [
    "application/proto", "application/json", "application/connect+proto", "application/connect+json", "application/grpc",
    "application/grpc+proto", "application/grpc+json", "application/grpc-web", "application/grpc-web+proto",
    "application/grpc-web+json", "text/html", "", "application/", "application/xml", "application/connect+", "application/grpc+",
    "application/json; charset=utf-8", "APPLICATION/JSON", "application/protox", "application/grpc-webx", "text/plain; charset=utf-8",
    "application/connect+protox", "application/connect+xproto", "application/connect+jsonx", "application/grpc+protox",
    "application/grpc+xjson", "application/grpc-web+jsonx", "application/grpc-web+xproto", "application/xproto", "application/jsonx",
    "application/connect", "application/grpcx+proto", "xapplication/grpc+proto", "application/proto;x=y", "application/connect+json;charset=utf-8", "json",
]
JSONS = [
    b"", b"{}", b"[]", b"null", b"1", b'"x"', b"{", b"true", b"\xff", b'{"error":{}}', b'{"error":null}', b'{"error":[]}', b'{"error":"x"}',
    b'{"error":{"code":"internal"}}', b'{"error":{"code":"nope"}}', b'{"error":{"code":5}}', b'{"error":{"code":null,"message":null}}',
    b'{"error":{"code":"aborted","message":5}}', b'{"error":{"code":"aborted","message":"m","details":[{"type":"a.B","value":"!!!"}]}}',
    b'{"error":{"code":"aborted","details":[{"type":"a.B"}]}}', b'{"error":{"code":"aborted","details":"x"}}',
    b'{"error":{"code":"aborted","details":[5]}}', b'{"error":{"code":"aborted","details":[{"type":5,"value":6}]}}',
    b'{"error":{"code":"aborted","details":{"type":"x"}}}', b'{"metadata":{"a":["b"]}}', b'{"metadata":{"a":"b"}}', b'{"metadata":[]}',
    b'{"metadata":{"a":[5]}}', b'{"metadata":{"a":5}}', b'{"metadata":5}', b'{"metadata":{"a b":["c"]}}', b'{"metadata":{"a":["x\\ny"]}}',
    b'{"code":"not_found","message":"nf"}', b'{"code":"nope"}', b'{"message":"only"}', b'{"code":"aborted","details":[{"type":"a.B","value":"QQ"}]}',
    b'{"code":"aborted","details":[{"type":"a.B","value":"QQ=="}]}', b'{"code":"aborted","message":null}', b'{"code":["x"]}', b'{"code":{}}',
    b'{"code":"aborted","details":[null]}', b'{"code":"CANCELED"}', b'{"code":"cancelled"}', b'{"code":0}', b'{"error":{"code":{}}}',
    b'{"code":"aborted","details":[{"type":"type.googleapis.com/a.B","value":"QQ","debug":{}}]}', b'{"code":"\\u0000"}',
    b'{"error":{"code":"ok"}}', b'{"code":"ok"}', b'{"error":false}', b'{"error":0}', b'{"error":1}', b"[" * 3000,
]
GRPC_STATUS = ["0", "1", "5", "16", "13", "17", "99", "-1", "00", "05", "", "x", "5 ", "1.0", "\xb2", "0x1", "4294967297"]
TRAILER_OP = st.one_of(
    st.tuples(st.just("status"), st.sampled_from(GRPC_STATUS)),
    st.tuples(st.just("message"), st.sampled_from(["", "%", "%zz", "%FF", "%E2%82", "a%0Ab", "é", "+", "100%25", "%e6%97%a5"])),
    st.tuples(st.just("details"), st.sampled_from(["", "!", "A", "AAAA", "CAUSAW0", "CAUSAW0=", "CAUSAW0===", "CAASAW0", "CGMSAW0", "é", "////", "Eg", "\xff"])),
    st.tuples(st.just("drop"), st.sampled_from(["grpc-status", "grpc-message", "grpc-status-details-bin"])),
    st.tuples(st.just("to-headers")),
    st.tuples(st.just("header-status"), st.sampled_from(GRPC_STATUS)),
    st.tuples(st.just("twice"), st.sampled_from(GRPC_STATUS)),
    st.tuples(st.just("web-raw"), st.sampled_from([b"", b"grpc-status:0", b"grpc-status: 0\r\n\r\n", b"nocolon\r\n", b"\xff: 1\r\n", b"GRPC-Status: 5\r\n",
                                                     b"grpc-status:5\n", b":\r\n", b"grpc-status: 0\r\nx: a:b\r\n", b"grpc-status: 7\r\ngrpc-message: a%20b\r\n"])),
    st.tuples(st.just("end-raw"), st.sampled_from(JSONS)),
    st.tuples(st.just("end-raw"), st.sampled_from([j for j in JSONS if b"error" in j])),
)
ENC_OP = st.one_of(st.none(), st.none(), st.none(), st.none(), st.sampled_from(["gzip", "br", "zstd", "identity", "deflate", "", "GZIP", "x", "gzip, br"]))
FAIL = st.one_of(
    st.none(), st.none(), st.none(),
    st.tuples(st.sampled_from(sorted(RESETS)), st.sampled_from(["before", "after", "after"])),
    st.tuples(st.sampled_from(sorted(EXCS)), st.sampled_from(["before", "after"])),
)


def strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "flavour": st.sampled_from(["async", "sync"]),
            "kind": st.sampled_from(["unary", "unary", "get", "client", "server", "bidi"]),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "codec": st.sampled_from(["proto", "json"]),
            "enc": st.sampled_from([None, None, "gzip", "br", "zstd"]),
            "mask": st.lists(st.booleans(), min_size=1, max_size=3),
            "ress": st.one_of(st.lists(msgs.ress(500), min_size=1, max_size=1), st.lists(msgs.ress(500), max_size=3)),
            "error": st.one_of(st.none(), st.none(), rpc.CONNECT_ERRORS),
            "user": rpc.HEADER_LIST,
            "style": st.integers(0, 2),
            "status": STATUS,
            "ctype": st.one_of(st.none(), st.none(), st.none(), st.sampled_from(CTYPES)),
            "body": st.lists(st.one_of(st.tuples(st.just("json"), st.sampled_from(JSONS)), *[_body_ops()]), max_size=2)
            | st.just([]),
            "tops": st.one_of(st.just([]), st.just([]), st.lists(TRAILER_OP, min_size=1, max_size=2)),
            "enc_op": ENC_OP,
            "fail": FAIL,
            "plan": rpc.PLAN,
        }
    )


def _body_ops() -> st.SearchStrategy:
    from .p08 import BODY_OP

    return BODY_OP


# -- the reference reading --------------------------------------------------------------------


@dataclass
class Want:
    kind: str = "ok"  # ok, error, open
    codes: set[str] | None = None  # None: any
    message: str | None = None
    details: list | None = None
    msgs: list[set] = field(default_factory=list)
    exact: bool = True  # all messages must have been delivered
    why: str = ""

    def fail(self, why: str, codes: set[str] | None = None, *, exact: bool = False) -> "Want":
        self.kind, self.codes, self.why, self.exact = "error", codes, why, exact
        return self

    def open(self, why: str) -> "Want":
        self.kind, self.why, self.exact, self.codes = "open", why, False, None
        return self


def http_code(status: int) -> str:
    return wire.HTTP_TO_CODE.get(status, "unknown")


def read_error_object(w: Want, e: Any, fallback: set[str] | None) -> None:
    """An RPC error object of the Connect protocol."""
    w.fail("error object", None)
    if not isinstance(e, dict):
        return
    code = e.get("code")
    well = isinstance(code, str) and code in wire.CODES
    if well:
        w.codes = {code}
    elif code is None:
        w.codes = fallback
    msg, det = e.get("message", ""), e.get("details", [])
    if not isinstance(msg, str) or not isinstance(det, list):
        w.codes = None
        return
    out = []
    for d in det:
        if not (isinstance(d, dict) and isinstance(d.get("type"), str) and isinstance(d.get("value"), str)):
            w.codes = None
            return
        if not re.fullmatch("[A-Za-z0-9+/]*={0,2}", d["value"]) or len(d["value"].rstrip("=")) % 4 == 1 or "/" in d["type"]:
            w.codes = None
            return
        out.append((d["type"], wire.b64_any(d["value"])))
    w.message, w.details = msg, out


def parse(data: bytes) -> tuple[bool, Any]:
    try:
        return True, json.loads(data)
    except (ValueError, RecursionError):
        return False, None


def decode(codec: str, data: bytes) -> set:
    alts = {msgs.try_decode(codec, data, msgs.G.Res)}
    try:
        alts.add(msgs.norm(rpc.codec(codec).decode(data, rpc.P.Res)))
    except Exception:  # noqa: BLE001
        alts.add(None)
    return alts


def want_unary(c: dict, status: int, h: dict, body: bytes, fail: Any) -> Want:
    w = Want()
    if fail:
        return w.fail("transport failure")
    enc = h.get("content-encoding", "")
    if enc:
        try:
            body = http._inflate(enc, body)  # noqa: SLF001 (what the transport will hand over)
        except Exception:  # noqa: BLE001
            return w.fail("transport cannot decompress")
    ctype = h.get("content-type", "")
    norm = ctype.partition(";")[0].strip().lower()
    if status != 200:
        if norm != "application/json":
            return w.fail("status without RPC error", {http_code(status)})
        ok, e = parse(body)
        if not ok or not isinstance(e, dict):
            if enc not in ("", "identity", *ACCEPTED):
                return w.fail("status")
            return w.fail("status with unreadable error", {http_code(status)})
        read_error_object(w, e, {http_code(status)})
        if enc not in ("", "identity", *ACCEPTED):
            w.codes, w.message, w.details = None, None, None
        return w
    if norm != f"application/{c['codec']}":
        return w.fail("content type", {"unknown", "internal"})
    if enc not in ("", "identity", *ACCEPTED):
        return w.fail("unknown encoding", None if enc.lower() in ACCEPTED else {"internal"})
    alts = decode(c["codec"], body)
    if alts == {None}:
        return w.fail("undecodable")
    if None in alts:
        return w.open("runtimes disagree")
    w.msgs = [alts]
    return w


def want_stream(c: dict, status: int, h: dict, body: bytes, trailers: list, fail: Any) -> Want:
    w = Want()
    protocol, codec = c["protocol"], c["codec"]
    single = c["kind"] in ("unary", "get", "client")

    def failed() -> Want:
        code = RESETS.get(fail[0])
        return w.fail(f"transport failure {fail[0]}", {code} if code else None)

    if fail and fail[1] == "before":
        return failed()
    ctype = h.get("content-type", "")
    if status != 200:
        if fail:
            return failed()
        ok, e = parse(body)
        if ok and isinstance(e, dict):
            if protocol == "connect" and ctype == "application/json":
                read_error_object(w, e, {http_code(status)})
            else:
                w.fail("status and JSON")
            return w
        return w.fail("status", {http_code(status)})
    norm = ctype.partition(";")[0].strip().lower()
    base = {"connect": "application/connect", "grpc": "application/grpc", "grpcweb": "application/grpc-web"}[protocol]
    good = {f"{base}+{codec}"} | ({base} if protocol != "connect" and codec == "proto" else set())
    if norm not in good:
        return w.fail("content type", {"unknown", "internal"})
    loose = ctype not in good
    name = wire.enc_headers(protocol, True)[0]
    enc = h.get(name, "") or "identity"
    if enc not in ("identity", *ACCEPTED):
        if loose or enc.strip().lower() in ("identity", *ACCEPTED):
            return w.open("loose encoding or content type")
        return w.fail("unknown encoding", {"internal"})
    endflag = {"connect": 2, "grpc": 0, "grpcweb": 0x80}[protocol]
    i, ended, end_md, bad, frames = 0, False, None, "", 0
    unsure = ""
    while i < len(body):
        if ended:
            bad = "bytes after the end"
            break
        if len(body) - i < 5:
            bad = "partial envelope"
            break
        flags, n = body[i], int.from_bytes(body[i + 1 : i + 5], "big")
        data = body[i + 5 : i + 5 + n]
        if len(data) < n:
            bad = "partial envelope"
            break
        i += 5 + n
        frames += 1
        if flags & ~(1 | endflag):
            return w.open("reserved flags")
        if flags & 1:
            if enc == "identity":
                bad = "compressed without encoding"
                break
            if not data:
                return w.open("compressed empty payload")
            plain = reference(enc, data)
            if debatable(enc, data):
                w.msgs.append(decode(codec, gzip.decompress(data)))
                return w.open("debatable gzip")
            if plain is None:
                bad = "corrupt payload"
                break
            data = plain
        if flags & endflag:
            ended, end_md = True, data
            continue
        alts = decode(codec, data)
        if alts == {None}:
            bad = "undecodable message"
            break
        if None in alts:
            return w.open("runtimes disagree")
        w.msgs.append(alts)
    if loose:
        return w.open("loose content type")
    if fail:
        failed()
        if (bad and bad != "partial envelope") or ended or (single and len(w.msgs) > 1) or (len(trailers) > 0 and protocol == "grpc" and not RESETS.get(fail[0])):
            w.codes = None  # what is noticed first is left open
        return w
    # a corrupt frame is noticed before the end
    if bad and bad not in ("partial envelope", "bytes after the end"):
        return w.fail(bad)
    if protocol == "connect":
        if not ended:
            return w.fail(bad or "no end of stream")
        ok, e = parse(end_md)  # type: ignore[arg-type]
        if not ok or not isinstance(e, dict):
            return w.fail("unreadable end of stream")
        if "error" in e:
            if isinstance(e["error"], dict):
                read_error_object(w, e["error"], None)
                w.exact = not bad
            elif e["error"]:
                w.fail("bad error member")
            else:
                w.open("odd error member")
        md = e.get("metadata", {})
        weird = not isinstance(md, dict) or any(
            not isinstance(v, list) or not all(isinstance(x, str) and not re.search(r"[^ -~]", x) for x in v) or not re.fullmatch(r"[\w\-.]+", k)
            for k, v in md.items()
        )
        if weird:
            if w.kind == "error":
                w.codes, w.message, w.details = None, None, None
            else:
                return w.open("odd metadata")
        if w.kind == "ok" and bad:
            return w.fail(bad)
        if bad:
            w.codes, w.message, w.details = None, None, None
    else:
        if protocol == "grpcweb":
            md: list = []
            if ended:
                for line in end_md.split(b"\r\n"):  # type: ignore[union-attr]
                    if not line:
                        continue
                    k, colon, v = line.partition(b":")
                    if not colon or not re.fullmatch(rb"[A-Za-z0-9\-_.]+", k.strip()) or re.search(rb"[^ -~]", v):
                        return w.fail("unreadable trailers") if not colon else w.open("odd trailers")
                    md.append((k.decode().strip().lower(), v.decode().strip()))
            if not any(k == "grpc-status" for k, _ in md) and frames == 0:
                md = list(h.items())
        else:
            md = trailers
            if not any(k == "grpc-status" for k, _ in md) and frames == 0:
                md = list(h.items())
        statuses = [v for k, v in md if k == "grpc-status"]
        if not statuses:
            return w.fail(bad or "no status", None)
        if len(statuses) > 1:
            return w.open("repeated status")
        s = statuses[0]
        if s == "0":
            if bad:
                return w.fail(bad)
        else:
            w.fail("grpc-status", None, exact=not bad)
            if re.fullmatch("[1-9]|1[0-6]", s):
                det = [v for k, v in md if k == "grpc-status-details-bin"]
                if len(det) <= 1 and (not det or not det[0]):
                    w.codes = {wire.GRPC_TO_NAME[s]}
                    raw = [v for k, v in md if k == "grpc-message"]
                    if len(raw) <= 1 and (not raw or re.fullmatch(r"([ -$&-~]|%[0-9A-Fa-f]{2})*", raw[0])):
                        w.message = pct(raw[0] if raw else "")
                        w.details = []
                elif len(det) == 1 and re.fullmatch("[A-Za-z0-9+/]+={0,2}", det[0]):
                    st_ = read_status(det[0])
                    if st_ is not None and st_[0] == int(s):
                        w.codes, w.message, w.details = {wire.GRPC_TO_NAME[s]}, st_[1], st_[2]
            elif re.fullmatch(r"\s*0+\s*", s):
                return w.open("odd zero")
            if bad:
                w.codes, w.message, w.details = None, None, None
    if single:
        if w.kind == "ok" and len(w.msgs) != 1:
            return w.fail(f"{len(w.msgs)} messages for a single-response call", {"unimplemented"})
        if len(w.msgs) > 1:
            w.codes, w.message, w.details = None, None, None
    return w


def pct(s: str) -> str | None:
    from urllib.parse import unquote_to_bytes

    try:
        return unquote_to_bytes(s).decode("utf-8")
    except UnicodeDecodeError:
        return None


def read_status(b64: str) -> tuple | None:
    """(code, message, [(type, bytes)]) of an unambiguous google.rpc.Status."""
    if len(b64.rstrip("=")) % 4 == 1:
        return None
    try:
        s = _status_class().FromString(wire.b64_any(b64))
    except Exception:  # noqa: BLE001
        return None
    return s.code, s.message, [(d.type_url.rpartition("/")[2], d.value) for d in s.details]


@functools.cache
def _status_class() -> Any:
    from google.protobuf import any_pb2, descriptor_pb2, descriptor_pool, message_factory

    pool = descriptor_pool.DescriptorPool()
    f = descriptor_pb2.FileDescriptorProto()
    any_pb2.DESCRIPTOR.CopyToProto(f)
    pool.Add(f)
    f = descriptor_pb2.FileDescriptorProto(name="s.proto", package="x", syntax="proto3", dependency=[any_pb2.DESCRIPTOR.name])
    m = f.message_type.add(name="Status")
    m.field.add(name="code", number=1, type=5, label=1)
    m.field.add(name="message", number=2, type=9, label=1)
    m.field.add(name="details", number=3, type=11, label=3, type_name=".google.protobuf.Any")
    pool.Add(f)
    return message_factory.GetMessageClass(pool.FindMessageTypeByName("x.Status"))


# -- building and running ---------------------------------------------------------------------


def build(c: dict) -> tuple[int, list, bytes, list, Any]:
    protocol, unary = c["protocol"], c["kind"] in ("unary", "get") and c["protocol"] == "connect"
    err = rpc.expected_error(c["error"]) if c["error"] else None
    status = c["status"]
    algo = c["enc"]
    trailers: list = []
    if unary:
        ct = f"application/{c['codec']}"
        if err is not None or status != 200:
            if err is not None:
                status = wire.CODES[err.code][1] if status == 200 else status
                body, ct = json.dumps(wire.error_json(err)).encode(), "application/json"
            else:
                body, ct = b"<html>", "text/html"
        else:
            body = msgs.ref_encode(c["codec"], msgs.g_res((c["ress"] or [{}])[0]))
        h = [("content-type", ct)]
        for op in c["tops"]:
            if op[0] == "end-raw" and status != 200:
                body, h = op[1], [("content-type", "application/json")]
        if algo and c["mask"][0]:
            body = wire.compress(algo, body)
            h.append(("content-encoding", algo))
        h += [("trailer-" + k, v) for k, v in c["user"]]
    else:
        h = [("content-type", wire.content_type(protocol, c["codec"], True))]
        if algo:
            h.append((wire.enc_headers(protocol, True)[0], algo))
        body = b""
        for i, r in enumerate(c["ress"]):
            p = msgs.ref_encode(c["codec"], msgs.g_res(r))
            body += wire.env(1, wire.compress(algo, p)) if algo and c["mask"][i % len(c["mask"])] else wire.env(0, p)
        ztail = algo if algo and c["mask"][0] else None
        tail, tr = wire.end_of_stream(protocol, err, c["user"], ztail, c["style"])
        md = wire.grpc_trailers(err, c["user"], c["style"]) if protocol != "connect" else []
        raw = None
        for op in c["tops"]:
            t = op[0]
            if t in ("status", "message", "details") and md:
                n = {"status": "grpc-status", "message": "grpc-message", "details": "grpc-status-details-bin"}[t]
                md = [x for x in md if x[0] != n] + [(n, op[1])]
            elif t == "drop":
                md = [x for x in md if x[0] != op[1]]
            elif t == "to-headers":
                h += md
                md = []
                if protocol == "grpcweb":
                    raw = b""
                    tail = b""
            elif t == "header-status":
                h.append(("grpc-status", op[1]))
            elif t == "twice" and md:
                md.append(("grpc-status", op[1]))
            elif (t == "web-raw" and protocol == "grpcweb") or (t == "end-raw" and protocol == "connect"):
                raw = op[1]
                tail = wire.env({"grpcweb": 0x80, "connect": 2}[protocol], raw)
            elif t == "end-raw" and status != 200:
                body, tail = op[1], b""
                raw = b""
                h = [("content-type", "application/json")]
        if protocol == "grpc":
            trailers = md
        elif protocol == "grpcweb" and raw is None and any(o[0] in ("status", "message", "details", "drop", "twice") for o in c["tops"]):
            block = "".join(f"{k}: {v}\r\n" for k, v in md).encode()
            tail = wire.env(0x80, block)
        del tr
        body += tail
        if status != 200 and c["style"] == 1:
            h = [("content-type", "application/json")] + h[1:]
    for op in c["body"]:
        body = op[1] if op[0] == "json" else body_op(body, op, not unary)
    if c["ctype"] is not None:
        h = [("content-type", c["ctype"])] + [x for x in h if x[0] != "content-type"]
    if c["enc_op"] is not None:
        n = wire.enc_headers(protocol, not unary)[0]
        h = [x for x in h if x[0] != n] + [(n, c["enc_op"])]
    return status, h, body, trailers, c["fail"]


def exception(name: str) -> Exception:
    if name in RESETS:
        return pyqwest.StreamError("stream reset", getattr(pyqwest.StreamErrorCode, name))
    return EXCS[name]("broken")


def run(c: dict, status: int, h: list, body: bytes, trailers: list, fail: Any) -> rpc.Result:
    kw = dict(
        protocol=rpc.PROTOCOLS[c["protocol"]], codec=rpc.codec(c["codec"]),
        accept_compression=rpc.comps(list(ACCEPTED)), send_compression=None,
    )
    reqs = [rpc.mk_req("py", {"text": "q"})]
    canned = http.Canned(
        status, h, http.split(body, c["plan"]), trailers, fail=(lambda: exception(fail[0])) if fail and fail[1] == "after" else None
    )

    def respond(_s: Any) -> http.Canned:
        if fail and fail[1] == "before":
            raise exception(fail[0])
        return canned

    call = {"use_get": True} if c["kind"] == "get" else {}
    if c["flavour"] == "async":

        async def go() -> rpc.Result:
            with ResponseMetadata():
                return await rpc.acall(rpc.aclient(http.CannedAsync(respond), **kw), c["kind"], reqs, **call)

        o = vclock.run(go)
        check(not o.leaked and not o.unhandled, "left-overs", lambda: f"{o.leaked} {o.unhandled}")
        return o.value
    with vclock.frozen(), ResponseMetadata():
        return rpc.scall(rpc.sclient(http.CannedSync(respond), **kw), c["kind"], reqs, **call)


def test(c: dict, rec: Any) -> None:
    unary = c["kind"] in ("unary", "get") and c["protocol"] == "connect"
    status, h, body, trailers, fail = build(c)
    hd: dict = {}
    for k, v in h:
        hd.setdefault(k, v)
    twice = len({k for k, _ in h if k.startswith("grpc-")}) != len([k for k, _ in h if k.startswith("grpc-")])
    w = want_unary(c, status, hd, body, fail) if unary else want_stream(c, status, hd, body, trailers, fail)
    if twice and w.kind != "error":
        w.open("repeated header")
    elif twice:
        w.codes = w.message = w.details = None
    r = run(c, status, h, body, trailers, fail)
    where = f"{c['flavour']} {c['protocol']} {c['kind']} {c['codec']}: {status} {h} {body[:160]!r} {trailers} {fail}"
    err = None
    if r.error is not None:
        err = rpc.observed_error(r.error)
    for i, m in enumerate(r.messages):
        if w.kind == "open" and i >= len(w.msgs):
            break
        check(i < len(w.msgs) and m in w.msgs[i], "message-not-in-the-response", lambda: f"{where}: got {m} expected {w.msgs[i:i + 1]} ({w.kind} {w.why})")
    if w.kind == "ok":
        check(err is None, "success-reported-as-error", lambda: f"{where}: {err}")
        check(len(r.messages) == len(w.msgs), "messages-missing", lambda: f"{where}: {len(r.messages)} of {len(w.msgs)}")
    elif w.kind == "error":
        check(err is not None, "error-reported-as-success", lambda: f"{where}: {w.why}: delivered {r.messages}")
        check(w.codes is None or err.code in w.codes, "wrong-code", lambda: f"{where}: {w.why}: {err} expected {w.codes}")
        if w.message is not None and w.codes:
            check(err.message == w.message, "wrong-message", lambda: f"{where}: {w.why}: {err} expected {w.message!r}")
        if w.details is not None and w.codes:
            check(err.details == w.details, "wrong-details", lambda: f"{where}: {w.why}: {err} expected {w.details!r}")
        if w.exact and c["kind"] in ("server", "bidi"):
            check(len(r.messages) == len(w.msgs), "messages-missing", lambda: f"{where}: {len(r.messages)} of {len(w.msgs)} before {err}")
    rec.label(f"{c['protocol'] if not unary else 'connect-unary'}/{w.kind}/{re.sub('[0-9]+', 'N', w.why)[:40]}")
    rec.label(c["flavour"])
    if w.kind == "error" or (w.kind == "ok" and (c["body"] or c["tops"])):
        rec.nontrivial(where)


PARTS = [
    Part("responses", strategy, test, quick=24000, shards=8),
    # damaged anywhere, the HTTP parts included
    Part("raw", lambda: rawnet.response_strategy(False), rawnet.response_test, quick=800, shards=2),
    Part("plugins", plugins.strategy("client"), plugins.test, quick=1500, shards=2),
]
