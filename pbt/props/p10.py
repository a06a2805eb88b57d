"""P10: compression is negotiated correctly and never corrupts data."""

from __future__ import annotations

import gzip
import struct
import zlib

import brotli
import zstandard
from hypothesis import strategies as st

from connectrpc.compression.brotli import BrotliCompression
from connectrpc.compression.gzip import GzipCompression
from connectrpc.compression.zstd import ZstdCompression

from .. import http, msgs, rpc, vclock, wire
from ..core import Part, Violation, check
from .p02 import mutate
from .p03 import call_client

PID = "P10"
LEVEL = "exploration"
RULE = (
    "non-trivial: negotiation cases with at least two offered tokens or a configured set other than the "
    "default; data cases with a payload of at least 1 byte in a non-default framing or a corruption that "
    "actually changed the bytes"
)
ASSUMPTIONS = [
    "a compressed payload of zero bytes may be read as an empty message (as connect-go does)",
    "zero padding after a gzip member is tolerated (as gzip tools do)",
    "for client unary Connect responses the HTTP client inflates; the harness transports stand in for it",
]
QUICK_BUDGET = 75.0
ALGOS = ["gzip", "br", "zstd"]


# -- framings: ways conforming compressors may produce a payload --------------------------------


def frame(algo: str, data: bytes, f: dict) -> bytes:
    """Compresses `data` in pieces cut at f['cuts'], with options f['opt']; always valid."""
    opt = f["opt"]
    cuts = sorted({c % (len(data) + 1) for c in f["cuts"]})
    pieces = [data[a:b] for a, b in zip([0, *cuts], [*cuts, len(data)])]
    if algo == "gzip":
        if f["multi"]:
            return b"".join(_gzip_member(p, opt) for p in pieces)
        c = zlib.compressobj([6, 1, 9, 0][opt % 4], zlib.DEFLATED, 31 if opt % 3 else 25)
        out = b""
        for p in pieces:
            out += c.compress(p) + c.flush([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_NO_FLUSH][opt % 3])
        return out + c.flush()
    if algo == "br":
        c = brotli.Compressor(quality=[3, 0, 11, 5, 1][opt % 5], lgwin=[22, 10, 16, 24][opt % 4], mode=opt % 3)
        out = b""
        for p in pieces:
            out += c.process(p)
            if f["multi"]:
                out += c.flush()
        return out + c.finish()
    kw = dict(
        level=[3, 1, 19, -5][opt % 4], write_content_size=bool(opt & 4), write_checksum=bool(opt & 8),
    )
    out = b""
    if f["multi"]:
        for i, p in enumerate(pieces):
            if opt & 16 and i == 0:
                out += struct.pack("<II", 0x184D2A50 + opt % 16, 3) + b"\x00\xffz"
            if opt & 32:
                o = zstandard.ZstdCompressor(**kw).compressobj()
                out += o.compress(p) + o.flush()
            else:
                out += zstandard.ZstdCompressor(**kw).compress(p)
        return out
    o = zstandard.ZstdCompressor(**kw).compressobj()
    for p in pieces:
        out += o.compress(p)
        if opt & 16:
            out += o.flush(zstandard.COMPRESSOBJ_FLUSH_BLOCK)
    return out + o.flush()


def _gzip_member(p: bytes, opt: int) -> bytes:
    c = zlib.compressobj([6, 1, 9, 0][opt % 4], zlib.DEFLATED, -15)
    raw = c.compress(p) + c.flush()
    flg = (opt >> 1) & 0b11100  # FEXTRA, FNAME, FCOMMENT
    head = b"\x1f\x8b\x08" + bytes([flg]) + b"\x01\x02\x03\x04\x02\xff"
    if flg & 4:
        head += b"\x03\x00abc"
    if flg & 8:
        head += b"name\x00"
    if flg & 16:
        head += b"comment\x00"
    return head + raw + struct.pack("<II", zlib.crc32(p), len(p) & 0xFFFFFFFF)


def reference(algo: str, data: bytes) -> bytes | None:
    """Independent strict decoder: the content, or None when the data is not valid."""
    try:
        if algo == "gzip":
            out = b""
            while data:
                d = zlib.decompressobj(31)
                out += d.decompress(data) + d.flush()
                if not d.eof:
                    return None
                data = d.unused_data
                if not data.strip(b"\0"):
                    break
            return out
        if algo == "br":
            d = brotli.Decompressor()
            out = d.process(data)
            return out if d.is_finished() else None
        out = b""
        while data:
            d = zstandard.ZstdDecompressor().decompressobj()
            out += d.decompress(data)
            if not d.eof:
                return None
            data = d.unused_data
        return out
    except Exception:  # noqa: BLE001
        return None


def debatable(algo: str, data: bytes) -> bool:
    """Content intact, but a part that carries none is not: gzip's reserved bits and header checksum."""
    if algo != "gzip" or reference(algo, data) is not None:
        return False
    try:
        gzip.decompress(data)
    except Exception:  # noqa: BLE001
        return False
    return True


FRAME = st.fixed_dictionaries(
    {
        "cuts": st.lists(st.integers(0, 10**6), max_size=3),
        "opt": st.integers(0, 63),
        "multi": st.booleans(),
    }
)
CORRUPT = st.one_of(
    st.tuples(st.just("flip"), st.integers(0, 10**6), st.integers(1, 255)),
    st.tuples(st.just("insert"), st.integers(0, 10**6), st.binary(min_size=1, max_size=6)),
    st.tuples(st.just("delete"), st.integers(0, 10**6), st.integers(1, 8)),
    st.tuples(st.just("cut"), st.integers(0, 10**6)),
    st.tuples(st.just("append"), st.binary(min_size=1, max_size=8)),
    st.tuples(st.just("replace"), st.binary(min_size=1, max_size=30)),
    st.tuples(st.just("other"), st.sampled_from(["identity", *ALGOS])),
)


def corrupt(algo: str, good: bytes, data: bytes, m: tuple) -> bytes:
    if m[0] == "append":
        return good + m[1]
    if m[0] == "replace":
        return m[1]
    if m[0] == "other":
        return wire.compress(m[1], data)
    return mutate(good, m)


# -- the compression objects themselves ---------------------------------------------------------

_SHARED = {"gzip": GzipCompression(), "br": BrotliCompression(), "zstd": ZstdCompression()}


def objects_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "algo": st.sampled_from(ALGOS),
            "level": st.one_of(st.none(), st.integers(0, 11)),
            "data": st.one_of(msgs.blobs(300000), msgs.blobs(9000), st.binary(max_size=200)),
            "type": st.sampled_from(["bytes", "bytearray", "memoryview"]),
            "frame": FRAME,
            "corrupt": st.lists(CORRUPT, max_size=4),
        }
    )


def test_objects(c: dict, rec) -> None:
    algo = c["algo"]
    data = msgs.expand_blob(c["data"])
    t = {"bytes": bytes, "bytearray": bytearray, "memoryview": memoryview}[c["type"]]
    lv = c["level"]
    if lv is None:
        o = _SHARED[algo]
    elif algo == "gzip":
        o = GzipCompression(min(lv, 9))
    elif algo == "br":
        o = BrotliCompression(lv if len(data) < 20000 else min(lv, 6))
    else:
        o = ZstdCompression(lv * 2 - 4)
    check(o.name() == algo, "name", o.name())
    z = o.compress(t(data))
    check(isinstance(z, bytes), "compress-result-type", type(z).__name__)
    check(reference(algo, z) == data, "compressed-data-does-not-decode", f"{algo} {len(data)}")
    check(wire.decompress(algo, z) == data, "compressed-data-does-not-decode", algo)
    check(o.decompress(t(z)) == data, "own-round-trip", f"{algo} {len(data)}")
    good = frame(algo, data, c["frame"])
    assert reference(algo, good) == data, "harness: framing invalid"
    got = o.decompress(t(good))
    check(got == data, "valid-framing-misread", lambda: f"{algo} {c['frame']}: {len(got)} of {len(data)} bytes")
    n = 0
    for m in c["corrupt"]:
        bad = corrupt(algo, good, data, m)
        if bad == good or not bad:
            continue
        n += 1
        judge(algo, good, bad, data, lambda: o.decompress(t(bad)), m)
    rec.evals(n)
    rec.label(f"{algo}/{'multi' if c['frame']['multi'] else 'single'}")
    if data and (n or c["frame"]["multi"]):
        rec.nontrivial(f"{algo} framing and {n} corruptions")


def judge(algo: str, good: bytes, bad: bytes, data: bytes, read, what) -> None:
    """Corrupted input must raise, unless it still encodes something (then exactly that)."""
    want = reference(algo, bad)
    try:
        got = read()
    except Violation:
        raise
    except Exception:  # noqa: BLE001
        return
    if want is not None:
        check(got == want, "corrupt-data-misread", f"{algo} {what}")
        return
    check(not good.startswith(bad), "truncated-data-accepted", f"{algo} {what}")
    # A decoder may ignore damage to parts that carry no content.
    check(got == data and not bad.startswith(good), "corrupt-data-accepted", f"{algo} {what}: {got[:40]!r}")


# -- servers: negotiation ------------------------------------------------------------------------

TOKEN = st.sampled_from(["gzip", "br", "zstd", "identity", "deflate", "snappy", "x-gzip", "GZIP", "gzi", "*", "gzip2", "b r"])
# plain: the form the protocols define; odd: things seen in the wild in HTTP
ACCEPT = st.one_of(
    st.none(),
    st.tuples(st.just("plain"), st.lists(TOKEN, max_size=5), st.sampled_from([",", ", ", " , "])),
    st.tuples(st.just("plain"), st.permutations(["gzip", "br", "zstd"]), st.sampled_from([",", ", "])),
    st.tuples(st.just("odd"), st.lists(st.tuples(TOKEN, st.sampled_from(["", ";q=1.0", ";q=0", "; q=0.5", ";q=0.000"])), max_size=4), st.sampled_from([",", ", ", ",,"])),
)


def negotiate_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "flavour": st.sampled_from(["asgi", "wsgi"]),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "kind": st.sampled_from(rpc.KINDS),
            "codec": st.sampled_from(["proto", "json"]),
            "supported": rpc.COMP_SET,
            "accept": ACCEPT,
            "send": st.sampled_from([None, "identity", "gzip", "br", "zstd", "deflate", "gzi"]),
            "flag": st.booleans(),
            "req": msgs.reqs(),
            "ress": st.lists(msgs.ress(5000), min_size=1, max_size=3),
            "error": st.one_of(st.none(), st.none(), rpc.CONNECT_ERRORS),
            "use_get": st.booleans(),
        }
    )


def test_negotiate(c: dict, rec) -> None:
    kind, protocol = c["kind"], c["protocol"]
    unary = kind in ("unary", "get")
    get = kind == "get" and protocol == "connect" and c["use_get"]
    stream = not (protocol == "connect" and unary)
    supported = ["gzip"] if c["supported"] is None else c["supported"]
    enc_h, acc_h = wire.enc_headers(protocol, stream)
    hs: list[tuple[str, str]] = []
    offered: list[str] = []  # acceptable response encodings
    plain = True
    if c["accept"] is not None:
        form, tokens, sep = c["accept"]
        if form == "plain":
            hs.append((acc_h, sep.join(tokens)))
            offered = list(tokens)
        else:
            plain = False
            hs.append((acc_h, sep.join(t + q for t, q in tokens)))
            offered = [t for t, q in tokens if not q.endswith("=0") and "0.000" not in q]
    send = c["send"]
    # A label without compressed data: whether the payload is compressed is per message in streams.
    known = send is None or send == "identity" or send in supported
    compressed = send in ALGOS and (c["flag"] or not stream)
    payload = msgs.ref_encode(c["codec"], msgs.g_req(c["req"]))
    data = wire.compress(send, payload) if compressed else payload
    svc = rpc.Script(ress=c["ress"] if kind in ("server", "bidi") else c["ress"][:1], error=c["error"])
    app = rpc.make_app(c["flavour"], svc, compressions=rpc.comps(c["supported"]))
    if get:
        q = wire.get_query(c["codec"], payload, compression=None if send == "identity" else send, raw=data)
        out = http.call(c["flavour"], app, "GET", rpc.path("get"), hs, query=q)
        compressed = send not in (None, "identity")
    else:
        h, _ = wire.build_request(protocol, unary, c["codec"], [b""], headers=hs)
        if send is not None:
            h.append((enc_h, send))
        body = wire.env(1 if compressed else 0, data) if stream else data
        out = http.call(c["flavour"], app, "POST", rpc.path(kind), h, body)
    check(out.complete, "response-incomplete", lambda: repr(out.exc))
    accept = [t for t in offered if t in supported]
    where = f"accept {hs} supported {supported} sent {send} -> {out.status} {out.headers}"
    r = wire.interpret_response(
        protocol, unary, c["codec"], accept, out.status, out.headers, out.body, out.trailers, False
    )
    if not known:
        check(r.error is not None, "unsupported-encoding-accepted", where)
        check(r.error.code == "unimplemented", "unsupported-encoding-code", lambda: f"{where}: {r.error}")
        check(not svc.seen or not svc.seen[0].reqs, "unsupported-encoding-delivered", where)
    else:
        check(len(svc.seen) == 1 and svc.seen[0].reqs == [msgs.nreq(c["req"])], "request-not-delivered", lambda: f"{where} {r.error}")
        check((r.error is None) == (c["error"] is None), "outcome", lambda: f"{where}: {r.error}")
    if r.error is None or stream:
        if plain:
            both = [t for t in offered if t in supported or t == "identity"]
            want = both[0] if both else "identity"
            check(r.encoding == want, "negotiated-encoding", f"{where}: expected {want}")
        if r.encoding != "identity" and stream:
            check(all(r.compressed_flags), "announced-but-not-used", where)
    if c["error"] is None and known:
        want_m = [msgs.nres(x) for x in svc.ress]
        got = [msgs.norm(msgs.ref_decode(c["codec"], m, msgs.G.Res)) for m in r.messages]
        check(got == want_m, "response-data", where)
    rec.label(f"{c['flavour']}/{protocol}/{kind}")
    rec.label(f"response:{r.encoding}")
    rec.label("known" if known else "unknown")
    if len(offered) >= 2 or c["supported"] not in (None, ["gzip"]):
        rec.nontrivial(f"{c['flavour']} {protocol} {r.encoding}")


# -- receivers: framed and corrupted payloads in calls -------------------------------------------


def calls_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "side": st.sampled_from(["server", "server", "client"]),
            "flavour": st.sampled_from(["async", "sync"]),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "kind": st.sampled_from(rpc.KINDS),
            "codec": st.sampled_from(["proto", "json"]),
            "algo": st.sampled_from(ALGOS),
            "req": msgs.reqs(5000),
            "res": msgs.ress(5000),
            "frame": FRAME,
            "corrupt": st.one_of(st.none(), CORRUPT),
            "label": st.sampled_from(["right", "right", "right", "right", "none", "wrong"]),
            "use_get": st.booleans(),
        }
    )


def test_calls(c: dict, rec) -> None:
    kind, protocol, algo, codec = c["kind"], c["protocol"], c["algo"], c["codec"]
    server = c["side"] == "server"
    unary = kind in ("unary", "get")
    stream = not (protocol == "connect" and unary)
    if not server and not stream:
        kind, unary, stream = "server", False, True  # the HTTP client inflates unary responses
    get = server and kind == "get" and protocol == "connect" and c["use_get"]
    payload = msgs.ref_encode(codec, msgs.g_req(c["req"]) if server else msgs.g_res(c["res"]))
    good = frame(algo, payload, c["frame"])
    bad = corrupt(algo, good, payload, c["corrupt"]) if c["corrupt"] else good
    label = {"right": algo, "none": None, "wrong": next(a for a in ALGOS if a != algo)}[c["label"]]
    if not bad or not payload:
        rec.label("empty")
        return
    # What the bytes mean under their label.
    if label is None:
        want = None if stream else bad
    else:
        want = reference(label, bad)
    cls = msgs.G.Req if server else msgs.G.Res
    meaning = None if want is None else msgs.try_decode(codec, want, cls)
    original = (msgs.nreq(c["req"]) if server else msgs.nres(c["res"]))
    where = f"{c['side']} {c['flavour']} {protocol} {kind} {algo} label={label} corrupt={c['corrupt']} frame={c['frame']}"
    enc_h = wire.enc_headers(protocol, stream)[0]
    if server:
        flavour = "asgi" if c["flavour"] == "async" else "wsgi"
        svc = rpc.Script(ress=[{"text": "r"}])
        app = rpc.make_app(flavour, svc, compressions=rpc.comps(ALGOS))
        if get:
            q = wire.get_query(codec, b"", compression=None, raw=bad)
            if label:
                q += f"&compression={label}"
            out = http.call(flavour, app, "GET", rpc.path("get"), [], query=q)
        else:
            h, _ = wire.build_request(protocol, unary, codec, [b""])
            if label:
                h.append((enc_h, label))
            body = wire.env(1, bad) if stream else bad
            out = http.call(flavour, app, "POST", rpc.path(kind), h, body)
        check(out.complete, "response-incomplete", lambda: f"{where}: {out.exc!r}")
        r = wire.interpret_response(protocol, unary, codec, [], out.status, out.headers, out.body, out.trailers, False)
        got = [m for s in svc.seen for m in s.reqs]
        error = r.error
    else:
        h = [("content-type", wire.content_type(protocol, codec, True))]
        if label:
            h.append((enc_h, label))
        end, tr = wire.end_of_stream(protocol, None, [])
        res = call_client(c["flavour"], protocol, codec, kind, http.Canned(200, h, [wire.env(1, bad) + end], tr))
        got, error = res.messages, res.error
        if error is not None:
            rpc.observed_error(error)
    valid = bad == good and c["label"] == "right"
    if valid:
        check(error is None and got == [original], "valid-payload-rejected", lambda: f"{where}: {error!r} {got}")
    elif got:
        ok = got == [meaning] if meaning is not None else (
            label == algo and got == [original] and not good.startswith(bad)
        )
        # JSON and protobuf parsers may accept more than the reference does; compare bytes only
        # when the reference could decode them.
        ok = ok or (want is not None and meaning is None)
        check(ok, "corrupt-payload-delivered", lambda: f"{where}: {got}")
    else:
        check(error is not None, "corrupt-payload-accepted", where)
    rec.label(f"{c['side']}/{c['flavour']}/{protocol}/{kind}")
    rec.label("valid" if valid else "delivered" if got else "rejected")
    rec.nontrivial(f"{c['side']} {algo} {'valid' if valid else c['label']}")


# -- clients: announcements and labels ------------------------------------------------------------


def announce_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "flavour": st.sampled_from(["async", "sync"]),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "kind": st.sampled_from(rpc.KINDS),
            "accept": rpc.COMP_SET,
            "as_iter": st.booleans(),
            "send": st.sampled_from(["default", None, "gzip", "br", "zstd"]),
            "req": msgs.reqs(3000),
            "label": st.sampled_from([None, "identity", "gzip", "br", "zstd", "deflate", "gzi"]),
            "flag": st.booleans(),
            "use_get": st.booleans(),
        }
    )


def test_announce(c: dict, rec) -> None:
    kind, protocol = c["kind"], c["protocol"]
    unary = kind in ("unary", "get")
    stream = not (protocol == "connect" and unary)
    get = kind == "get" and c["use_get"] and protocol == "connect"
    enc_h, acc_h = wire.enc_headers(protocol, stream)
    accepted = ["gzip"] if c["accept"] is None else c["accept"]
    acc = rpc.comps(c["accept"])
    kw: dict = dict(protocol=rpc.PROTOCOLS[protocol])
    if acc is not None:
        kw["accept_compression"] = iter(acc) if c["as_iter"] else acc
    if c["send"] != "default":
        kw["send_compression"] = rpc.comp(c["send"]) if c["send"] else None
    sent_enc = "gzip" if c["send"] == "default" else c["send"] or "identity"
    # the response is labelled `label`; whether the one message is compressed is `flag` in streams
    label = c["label"]
    known = label in (None, "identity") or label in accepted
    compressed = label in ALGOS and (c["flag"] or not stream)
    payload = msgs.ref_encode("proto", msgs.g_res({"text": "r" * 20}))
    data = wire.compress(label, payload) if compressed else payload
    h = [("content-type", wire.content_type(protocol, "proto", stream))]
    if label:
        h.append((enc_h, label))
    end, tr = wire.end_of_stream(protocol, None, []) if stream else (b"", None)
    body = wire.env(1 if compressed else 0, data) + end if stream else data
    canned = http.Canned(200, h, [body], tr)
    reqs = [rpc.mk_req("py", c["req"])]
    if c["flavour"] == "async":
        t: object = http.CannedAsync(lambda _s: canned)

        async def go():
            return await rpc.acall(rpc.aclient(t, **kw), kind, reqs, use_get=get)

        r = vclock.run(go).value
    else:
        t = http.CannedSync(lambda _s: canned)
        r = rpc.scall(rpc.sclient(t, **kw), kind, reqs, use_get=get)
    check(len(t.requests) == 1, "requests-sent", len(t.requests))  # type: ignore[attr-defined]
    s = t.requests[0]  # type: ignore[attr-defined]
    got = [v for k, v in s.headers if k == acc_h]
    check(len(got) <= 1, "accept-count", repr(got))
    tokens = [x.strip() for x in (got[0] if got else "").split(",") if x.strip()]
    check([x for x in tokens if x != "identity"] == accepted, "announced-encodings", f"{got} for {accepted}")
    want = ("Req", msgs.nreq(c["req"]))[1]
    if get:
        from urllib.parse import parse_qs

        q = {k: v[0] for k, v in parse_qs(s.query, keep_blank_values=True).items()}
        enc = q.get("compression", "identity")
        raw = wire.b64_any(q["message"].translate(str.maketrans("-_", "+/")))
        plain = wire.decompress(enc, raw)
    else:
        enc = ([v for k, v in s.headers if k == enc_h] or ["identity"])[0]
        if stream:
            envs = wire.parse_envs(s.body)
            check(len(envs) == 1, "request-envelopes", len(envs))
            fl, raw = envs[0]
            check(not (fl & 1 and enc == "identity"), "unlabelled-compression", enc)
            plain = wire.decompress(enc, raw) if fl & 1 else raw
        else:
            plain = wire.decompress(enc, s.body)
    check(enc == sent_enc, "sent-encoding-label", f"{enc} configured {sent_enc}")
    check(msgs.norm(msgs.ref_decode("proto", plain, msgs.G.Req)) == want, "sent-data", enc)
    if known:
        check(r.error is None and len(r.messages) == 1, "accepted-encoding-refused", lambda: f"{label} of {accepted}: {r.error!r}")
    else:
        check(r.error is not None and not r.messages, "unannounced-encoding-accepted", f"{label} of {accepted}")
        rpc.observed_error(r.error)
    rec.label(f"{c['flavour']}/{protocol}/{kind}")
    rec.label("known" if known else "unknown")
    if c["accept"] not in (None, ["gzip"]):
        rec.nontrivial(f"{c['flavour']} {protocol} accept={accepted} label={label}")


PARTS = [
    Part("objects", objects_strategy, test_objects, quick=2500, shards=2),
    Part("negotiate", negotiate_strategy, test_negotiate, quick=4000, shards=2),
    Part("calls", calls_strategy, test_calls, quick=4000, shards=2),
    Part("announce", announce_strategy, test_announce, quick=2500, shards=2),
]
