"""Independent reference implementation of the three wire protocols, written from the public
protocol documents (connectrpc.com/docs/protocol, gRPC PROTOCOL-HTTP2.md, PROTOCOL-WEB.md).
Shares no code with the library under test."""

from __future__ import annotations

import base64
import binascii
import json
import re
import struct
import zlib
from dataclasses import dataclass, field
from typing import Any

import brotli
import zstandard

from .core import Violation, check

# name -> (grpc number, http status of a unary Connect error)
CODES: dict[str, tuple[int, int]] = {
    "canceled": (1, 499),
    "unknown": (2, 500),
    "invalid_argument": (3, 400),
    "deadline_exceeded": (4, 504),
    "not_found": (5, 404),
    "already_exists": (6, 409),
    "permission_denied": (7, 403),
    "resource_exhausted": (8, 429),
    "failed_precondition": (9, 400),
    "aborted": (10, 409),
    "out_of_range": (11, 400),
    "unimplemented": (12, 501),
    "internal": (13, 500),
    "unavailable": (14, 503),
    "data_loss": (15, 500),
    "unauthenticated": (16, 401),
}
CODE_NAMES = list(CODES)
GRPC_TO_NAME = {str(v[0]): k for k, v in CODES.items()}

# HTTP status -> code, when a response carries no usable protocol-level error.
HTTP_TO_CODE = {
    400: "internal",
    401: "unauthenticated",
    403: "permission_denied",
    404: "unimplemented",
    429: "unavailable",
    502: "unavailable",
    503: "unavailable",
    504: "unavailable",
}


# -- envelopes --------------------------------------------------------------------------


def env(flags: int, payload: bytes) -> bytes:
    return struct.pack(">BI", flags, len(payload)) + payload


def parse_envs(data: bytes) -> list[tuple[int, bytes]]:
    out = []
    i = 0
    while i < len(data):
        check(len(data) - i >= 5, "wire:partial-envelope", f"{len(data) - i} stray bytes")
        flags, n = struct.unpack(">BI", data[i : i + 5])
        i += 5
        check(len(data) - i >= n, "wire:partial-envelope", f"need {n} have {len(data) - i}")
        out.append((flags, data[i : i + n]))
        i += n
    return out


# -- compression ------------------------------------------------------------------------

ALGOS = ["identity", "gzip", "br", "zstd"]


def compress(name: str, data: bytes, level: int = 0) -> bytes:
    if name in ("identity", ""):
        return data
    if name == "gzip":
        c = zlib.compressobj([6, 1, 9, 0][level % 4], zlib.DEFLATED, 31)
        return c.compress(data) + c.flush()
    if name == "br":
        return brotli.compress(data, quality=[3, 0, 9, 5][level % 4])
    if name == "zstd":
        if level % 2:
            # frames without content size
            c = zstandard.ZstdCompressor(level=3, write_content_size=False).compressobj()
            return c.compress(data) + c.flush()
        return zstandard.ZstdCompressor(level=3).compress(data)
    raise AssertionError(name)


def decompress(name: str, data: bytes) -> bytes:
    """Strict: one complete stream and nothing else."""
    try:
        if name in ("identity", ""):
            return data
        if name == "gzip":
            d = zlib.decompressobj(31)
            r = d.decompress(data) + d.flush()
            check(d.eof and not d.unused_data, "wire:bad-gzip")
            return r
        if name == "br":
            return brotli.decompress(data)
        if name == "zstd":
            d = zstandard.ZstdDecompressor().decompressobj()
            r = d.decompress(data)
            check(d.eof and not d.unused_data, "wire:bad-zstd")
            return r
    except Violation:
        raise
    except Exception as e:
        raise Violation("wire:undecodable-compression", f"{name}: {e!r}") from e
    raise Violation("wire:unknown-compression", name)


# -- base64 / errors ---------------------------------------------------------------------


def b64_unpadded_strict(s: str) -> bytes:
    check("=" not in s, "wire:base64-padded", s)
    return b64_any(s)


def b64_any(s: str) -> bytes:
    check(isinstance(s, str) and re.fullmatch(r"[A-Za-z0-9+/]*={0,2}", s), "wire:base64", s)
    try:
        return base64.b64decode(s.rstrip("=") + "=" * (-len(s.rstrip("=")) % 4), validate=True)
    except binascii.Error as e:
        raise Violation("wire:base64", s) from e


@dataclass
class Err:
    code: str
    message: str
    details: list[tuple[str, bytes]] = field(default_factory=list)


def parse_error_json(obj: Any) -> Err:
    check(isinstance(obj, dict), "wire:error-not-object", repr(obj))
    check(obj.get("code") in CODES, "wire:error-code", repr(obj.get("code")))
    msg = obj.get("message", "")
    check(isinstance(msg, str), "wire:error-message", repr(msg))
    details = []
    for d in obj.get("details", []):
        check(isinstance(d, dict), "wire:error-detail", repr(d))
        check(isinstance(d.get("type"), str) and "/" not in d["type"], "wire:detail-type", repr(d))
        details.append((d["type"], b64_unpadded_strict(d.get("value"))))
    return Err(obj["code"], msg, details)


def error_json(e: Err) -> dict:
    d: dict[str, Any] = {"code": e.code, "message": e.message}
    if e.details:
        d["details"] = [
            {"type": t, "value": base64.b64encode(v).decode().rstrip("=")} for t, v in e.details
        ]
    return d


def loads(data: bytes, sig: str) -> Any:
    try:
        return json.loads(data.decode("utf-8"))
    except ValueError as e:
        raise Violation(sig, repr(data[:200])) from e


# -- minimal protobuf reader/writer (for google.rpc.Status) --------------------------------


def varint(n: int) -> bytes:
    n &= (1 << 64) - 1
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def pb_fields(data: bytes) -> list[tuple[int, int, Any]]:
    i = 0

    def rv() -> int:
        nonlocal i
        shift = r = 0
        while True:
            check(i < len(data), "wire:protobuf")
            b = data[i]
            i += 1
            r |= (b & 0x7F) << shift
            if not b & 0x80:
                return r
            shift += 7

    out = []
    while i < len(data):
        tag = rv()
        fn, wt = tag >> 3, tag & 7
        if wt == 0:
            out.append((fn, wt, rv()))
        elif wt == 2:
            n = rv()
            check(i + n <= len(data), "wire:protobuf")
            out.append((fn, wt, data[i : i + n]))
            i += n
        elif wt == 1:
            out.append((fn, wt, data[i : i + 8]))
            i += 8
        elif wt == 5:
            out.append((fn, wt, data[i : i + 4]))
            i += 4
        else:
            raise Violation("wire:protobuf", f"wire type {wt}")
    return out


def pb_len(fn: int, data: bytes) -> bytes:
    return varint(fn << 3 | 2) + varint(len(data)) + data


def status_bytes(code: int, message: str, details: list[tuple[str, bytes]]) -> bytes:
    out = b""
    if code:
        out += varint(1 << 3) + varint(code)
    if message:
        out += pb_len(2, message.encode())
    for t, v in details:
        a = pb_len(1, ("type.googleapis.com/" + t).encode())
        if v:
            a += pb_len(2, v)
        out += pb_len(3, a)
    return out


def parse_status(data: bytes) -> tuple[int, str, list[tuple[str, bytes]]]:
    code, msg, details = 0, "", []
    for fn, _wt, v in pb_fields(data):
        if fn == 1:
            code = v
        elif fn == 2:
            msg = v.decode("utf-8")
        elif fn == 3:
            url, val = "", b""
            for f2, _w, x in pb_fields(v):
                if f2 == 1:
                    url = x.decode()
                elif f2 == 2:
                    val = x
            check("/" in url, "wire:any-type-url", url)
            details.append((url.rsplit("/", 1)[1], val))
    return code, msg, details


def pct_decode(s: str) -> str:
    """gRPC percent-decoding; every other character must be printable ASCII."""
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == "%":
            check(re.fullmatch("[0-9A-Fa-f]{2}", s[i + 1 : i + 3]), "wire:grpc-message", s)
            out.append(int(s[i + 1 : i + 3], 16))
            i += 3
        else:
            check(0x20 <= ord(c) <= 0x7E, "wire:grpc-message", repr(s))
            out.append(ord(c))
            i += 1
    try:
        return out.decode("utf-8")
    except UnicodeDecodeError as e:
        raise Violation("wire:grpc-message-utf8", s) from e


def pct_encode(s: str, style: int = 0) -> str:
    out = []
    for b in s.encode("utf-8"):
        if 0x20 <= b <= 0x7E and b != 0x25 and (style != 1 or chr(b).isalnum()):
            out.append(chr(b))
        else:
            out.append(f"%{b:02x}" if style == 2 else f"%{b:02X}")
    return "".join(out)


def parse_grpc_status(md: list[tuple[str, str]]) -> Err | None:
    """Error (or None for OK) from gRPC trailers; checks their well-formedness."""
    st = [v for k, v in md if k == "grpc-status"]
    check(len(st) == 1, "wire:grpc-status-count", repr(st))
    check(re.fullmatch("0|[1-9][0-9]*", st[0]), "wire:grpc-status", st[0])
    msgs = [v for k, v in md if k == "grpc-message"]
    dets = [v for k, v in md if k == "grpc-status-details-bin"]
    check(len(msgs) <= 1 and len(dets) <= 1, "wire:grpc-trailers-dup", repr(md))
    if st[0] == "0":
        check(not dets, "wire:grpc-ok-with-details", repr(md))
        return None
    check(st[0] in GRPC_TO_NAME, "wire:grpc-status", st[0])
    msg = pct_decode(msgs[0]) if msgs else ""
    details: list[tuple[str, bytes]] = []
    if dets:
        code, m2, details = parse_status(b64_any(dets[0]))
        check(str(code) == st[0], "wire:status-details-code", f"{code} vs {st[0]}")
        check(m2 == msg, "wire:status-details-message", f"{m2!r} vs {msg!r}")
    return Err(GRPC_TO_NAME[st[0]], msg, details)


def parse_web_trailers(block: bytes) -> list[tuple[str, str]]:
    out = []
    for line in block.decode("utf-8").split("\r\n"):
        if not line:
            continue
        check(":" in line, "wire:grpc-web-trailer-line", line)
        k, v = line.split(":", 1)
        check(k == k.lower() and k.strip() == k, "wire:grpc-web-trailer-key", k)
        out.append((k, v.strip(" \t")))
    return out


# -- content types -------------------------------------------------------------------------


def content_type(protocol: str, codec: str, stream: bool) -> str:
    if protocol == "connect":
        return f"application/connect+{codec}" if stream else f"application/{codec}"
    if protocol == "grpc":
        return f"application/grpc+{codec}"
    return f"application/grpc-web+{codec}"


# (encoding header, accept header)
def enc_headers(protocol: str, stream: bool) -> tuple[str, str]:
    if protocol == "connect":
        if stream:
            return "connect-content-encoding", "connect-accept-encoding"
        return "content-encoding", "accept-encoding"
    return "grpc-encoding", "grpc-accept-encoding"


@dataclass
class RpcResult:
    """What a conforming peer concludes from a response."""

    messages: list[bytes]  # decompressed payloads, in order
    error: Err | None
    headers: list[tuple[str, str]]
    trailers: list[tuple[str, str]]
    encoding: str = "identity"
    compressed_flags: list[bool] = field(default_factory=list)
    http_error: int | None = None


_RESERVED_TRAILERS = {"grpc-status", "grpc-message", "grpc-status-details-bin"}


def interpret_response(
    protocol: str,
    unary_method: bool,
    codec: str,
    accept: list[str],
    status: int,
    headers: list[tuple[str, str]],
    body: bytes,
    trailers: list[tuple[str, str]] | None,
    single_response: bool,
) -> RpcResult:
    """Strict client: decodes a *conforming* response, raising Violation on any deviation."""
    stream = not (protocol == "connect" and unary_method)
    ct = [v for k, v in headers if k == "content-type"]
    check(len(ct) == 1, "wire:content-type-count", repr(ct))
    enc_h, _ = enc_headers(protocol, stream)
    enc = [v for k, v in headers if k == enc_h]
    check(len(enc) <= 1, "wire:encoding-count", repr(enc))
    encoding = enc[0] if enc else "identity"

    if not stream:
        md = [(k, v) for k, v in headers if not k.startswith("trailer-")]
        tr = [(k[8:], v) for k, v in headers if k.startswith("trailer-")]
        if status == 200:
            check(ct[0] == f"application/{codec}", "wire:content-type", ct[0])
            check(encoding in accept or encoding == "identity", "wire:encoding-unaccepted", encoding)
            return RpcResult([decompress(encoding, body)], None, md, tr, encoding)
        check(ct[0] == "application/json", "wire:error-content-type", ct[0])
        check(encoding == "identity", "wire:error-encoding", encoding)
        e = parse_error_json(loads(body, "wire:error-json"))
        check(CODES[e.code][1] == status, "wire:error-http-status", f"{e.code} with {status}")
        return RpcResult([], e, md, tr, encoding)

    check(status == 200, "wire:stream-status", str(status))
    check(ct[0] == content_type(protocol, codec, True), "wire:content-type", ct[0])
    check(encoding in accept or encoding == "identity", "wire:encoding-unaccepted", encoding)
    envs = parse_envs(body)
    res = RpcResult([], None, headers, [], encoding)

    def payload(flags: int, data: bytes) -> bytes:
        if flags & 1:
            check(encoding != "identity", "wire:compressed-flag-identity")
            return decompress(encoding, data)
        return data

    if protocol == "connect":
        check(envs and envs[-1][0] & 2, "wire:no-end-stream")
        for flags, data in envs[:-1]:
            check(flags in (0, 1), "wire:flags", str(flags))
            res.messages.append(payload(flags, data))
            res.compressed_flags.append(bool(flags & 1))
        flags, data = envs[-1]
        check(flags in (2, 3), "wire:flags", str(flags))
        end = loads(payload(flags, data), "wire:end-stream-json")
        check(isinstance(end, dict), "wire:end-stream-json", repr(end))
        check(set(end) <= {"error", "metadata"}, "wire:end-stream-keys", repr(end))
        for k, vs in (end.get("metadata") or {}).items():
            check(isinstance(vs, list), "wire:end-stream-metadata", repr(end))
            for v in vs:
                check(isinstance(v, str), "wire:end-stream-metadata", repr(end))
                res.trailers.append((k, v))
        if "error" in end:
            res.error = parse_error_json(end["error"])
    else:
        if protocol == "grpc":
            for flags, data in envs:
                check(flags in (0, 1), "wire:flags", str(flags))
                res.messages.append(payload(flags, data))
                res.compressed_flags.append(bool(flags & 1))
            check(trailers is not None, "wire:no-trailers")
            md = trailers or []
        else:
            check(not trailers, "wire:web-http-trailers", repr(trailers))
            check(envs and envs[-1][0] & 0x80, "wire:no-web-trailers")
            for flags, data in envs[:-1]:
                check(flags in (0, 1), "wire:flags", str(flags))
                res.messages.append(payload(flags, data))
                res.compressed_flags.append(bool(flags & 1))
            flags, data = envs[-1]
            check(flags in (0x80, 0x81), "wire:flags", str(flags))
            md = parse_web_trailers(payload(flags, data))
        res.error = parse_grpc_status(md)
        res.trailers = [(k, v) for k, v in md if k not in _RESERVED_TRAILERS]
    if single_response:
        if res.error is None:
            check(len(res.messages) == 1, "wire:single-response-count", str(len(res.messages)))
    return res


def build_request(
    protocol: str,
    unary_method: bool,
    codec: str,
    payloads: list[bytes],
    *,
    encoding: str | None = None,
    accept: list[str] | None = None,
    compress_mask: list[bool] | None = None,
    levels: int = 0,
    headers: list[tuple[str, str]] = (),  # type: ignore[assignment]
) -> tuple[list[tuple[str, str]], bytes]:
    """A conforming request for the given payloads (POST)."""
    stream = not (protocol == "connect" and unary_method)
    h: list[tuple[str, str]] = [("content-type", content_type(protocol, codec, stream))]
    enc_h, acc_h = enc_headers(protocol, stream)
    if encoding is not None:
        h.append((enc_h, encoding))
    if accept is not None:
        h.append((acc_h, ",".join(accept)))
    if protocol == "connect":
        h.append(("connect-protocol-version", "1"))
    else:
        h.append(("te", "trailers"))
    h += list(headers)
    algo = encoding or "identity"
    if not stream:
        assert len(payloads) == 1
        return h, compress(algo, payloads[0], levels)
    body = b""
    for i, p in enumerate(payloads):
        z = algo != "identity" and (compress_mask is None or compress_mask[i % len(compress_mask)])
        body += env(1, compress(algo, p, levels)) if z else env(0, p)
    return h, body


def grpc_trailers(e: Err | None, user: list[tuple[str, str]], style: int = 0) -> list[tuple[str, str]]:
    t = list(user)
    if e is None:
        return [*t, ("grpc-status", "0")]
    t.append(("grpc-status", str(CODES[e.code][0])))
    if e.message:
        t.append(("grpc-message", pct_encode(e.message, style)))
    if e.details:
        sb = status_bytes(CODES[e.code][0], e.message, e.details)
        b = base64.b64encode(sb).decode()
        t.append(("grpc-status-details-bin", b if style == 1 else b.rstrip("=")))
    return t


def end_of_stream(
    protocol: str, e: Err | None, user: list[tuple[str, str]], algo: str | None = None, style: int = 0
) -> tuple[bytes, list[tuple[str, str]] | None]:
    """Final bytes of a streaming response body, and its HTTP trailers."""
    if protocol == "grpc":
        return b"", grpc_trailers(e, user, style)
    if protocol == "connect":
        d: dict[str, Any] = {}
        if user:
            md: dict[str, list[str]] = {}
            for k, v in user:
                md.setdefault(k, []).append(v)
            d["metadata"] = md
        if e is not None:
            d["error"] = error_json(e)
        data, flag = json.dumps(d, ensure_ascii=style != 1).encode(), 2
    else:
        data = "".join(
            f"{k}:{'' if style == 2 else ' '}{v}\r\n" for k, v in grpc_trailers(e, user, style)
        ).encode()
        flag = 0x80
    if algo:
        return env(flag | 1, compress(algo, data)), None
    return env(flag, data), None


# -- Connect GET queries -------------------------------------------------------------------------

_QUERY_SAFE = frozenset(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~")


def query_encode(data: bytes, style: int = 0) -> str:
    """Percent-encodes a query value. style 0: everything but unreserved; 1: lower-case hex; 2: every
    byte; 3: blanks as '+'; 4: leaves characters legal in a query as they are."""
    out = []
    for b in data:
        c = chr(b)
        if style == 2:
            out.append(f"%{b:02X}")
        elif b in _QUERY_SAFE:
            out.append(c)
        elif style == 3 and c == " ":
            out.append("+")
        elif style == 4 and c in "!$'()*,:@/?":
            out.append(c)
        else:
            out.append(f"%{b:02x}" if style == 1 else f"%{b:02X}")
    return "".join(out)


def get_query(
    codec: str,
    payload: bytes,
    *,
    compression: str | None = None,
    b64: bool = True,
    pad: bool = False,
    style: int = 0,
    order: int = 0,
    version: bool = True,
    explicit_base64_0: bool = False,
    level: int = 0,
    raw: bytes | None = None,
) -> str:
    """Query string of a conforming Connect GET request. `raw` replaces the encoded payload."""
    if raw is not None:
        data = raw
    else:
        data = compress(compression, payload, level) if compression else payload
    if b64:
        t = base64.urlsafe_b64encode(data)
        data = t if pad else t.rstrip(b"=")
    params = [("message", query_encode(data, style)), ("encoding", codec)]
    if b64:
        params.append(("base64", "1"))
    elif explicit_base64_0:
        params.append(("base64", "0"))
    if compression:
        params.append(("compression", compression))
    if version:
        params.append(("connect", "v1"))
    out = []
    while params:  # permutation number `order`
        order, i = divmod(order, len(params))
        out.append(params.pop(i))
    return "&".join(f"{k}={v}" for k, v in out)
