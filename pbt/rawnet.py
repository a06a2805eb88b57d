"""Calls over bare TCP connections: a client or server that breaks off at a chosen byte, against the library's
applications in real HTTP servers and its clients. Used by P03 and P07."""

from __future__ import annotations

import functools
import socket
import struct
import threading
import time
from typing import Any

from hypothesis import strategies as st

from . import http, interop, msgs, rpc, sock, wire
from .core import check
from .props.p02 import MUTATION, mutate, response

TIMEOUT = 20.0
ENC = st.sampled_from([None, None, "gzip", "br", "zstd"])


def boundaries(envs: list[bytes]) -> list[int]:
    out, n = [], 0
    for e in envs:
        n += len(e)
        out.append(n)
    return out


def reset(s: socket.socket) -> None:
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
    s.close()


def chunked(parts: list[bytes], trailers: list | None = None) -> list[bytes]:
    """The last one ends the body."""
    out = [b"%x\r\n%s\r\n" % (len(p), p) for p in parts if p]
    return [*out, b"0\r\n" + b"".join(f"{k}: {v}\r\n".encode("utf-8") for k, v in trailers or ()) + b"\r\n"]


def head(first: str, headers: list) -> bytes:
    return "\r\n".join([first, *(f"{k}: {v}" for k, v in headers), "", ""]).encode("utf-8")


# -- requests cut off on their way to a server ----------------------------------------------------


def request_strategy() -> st.SearchStrategy:
    def build(kind: str) -> st.SearchStrategy:
        return st.fixed_dictionaries(
            {
                "server": st.sampled_from(["hypercorn", "werkzeug"]),
                "kind": st.just(kind),
                "protocol": st.sampled_from(["connect", "grpcweb"]),  # these need no trailers
                "codec": st.sampled_from(["proto", "json"]),
                "enc": ENC,
                "reqs": st.lists(msgs.reqs(5000), min_size=1, max_size=4 if kind in ("client", "bidi") else 1),
                "framing": st.sampled_from(["length", "chunked"]),
                "end": st.sampled_from(["fin", "rst"]),
                "at": st.one_of(st.integers(0, 60), st.integers(0, 10**6)),
                "boundary": st.booleans(),
                "wait": st.booleans(),
                "plan": rpc.PLAN,
            }
        )

    return st.sampled_from(["unary", "client", "client", "server", "bidi", "bidi"]).flatmap(build)


def request_test(c: dict, rec: Any) -> None:
    kind, protocol = c["kind"], c["protocol"]
    multi = kind in ("client", "bidi")
    algo = c["enc"] or "identity"
    payloads = [msgs.ref_encode(c["codec"], msgs.g_req(r)) for r in c["reqs"]]
    headers, body = wire.build_request(protocol, kind == "unary" and protocol == "connect", c["codec"], payloads, encoding=c["enc"])
    if kind == "unary" and protocol == "connect":
        bounds = [len(body)]
    else:
        bounds = boundaries([wire.env(f, d) for f, d in wire.parse_envs(body)])
    # all of a body in chunks can have come without its end
    last = len(body) + (c["framing"] == "chunked" and multi)
    if last == 0:
        return
    cut = [0, *bounds][c["at"] % (len(bounds) + 1)] if c["boundary"] else c["at"] % last
    if cut >= last:
        cut = last - 1
    where = f"{c['server']} cut at {cut} of {len(body)} (boundaries {bounds}, {c['framing']}, {c['end']})"
    svc = rpc.Script(ress=[{"text": "r"}], interleave=[1] if kind == "bidi" else None)
    werkzeug = c["server"] == "werkzeug"
    slot, port = sock.werkzeug() if werkzeug else sock.hypercorn()
    slot.app = rpc.make_app("wsgi" if werkzeug else "asgi", svc, compressions=rpc.comps(["gzip", "br", "zstd"]))
    slot.reset()
    headers = [*headers, ("host", "x"), ("content-length", str(len(body))) if c["framing"] == "length" else ("transfer-encoding", "chunked")]
    data = [head(f"POST {rpc.path(kind)} HTTP/1.1", headers)]
    pieces = [p for p in http.split(body[:cut], c["plan"]) if p]
    data += pieces if c["framing"] == "length" else chunked(pieces)[:-1]
    s = socket.create_connection((sock.HOST, port), TIMEOUT)
    try:
        for i in range(0, len(data), 64):
            s.sendall(b"".join(data[i : i + 64]))
        if c["wait"] or c["end"] == "rst":
            # a reset must not overtake the head of the request
            check(slot.wait(1, 0, TIMEOUT), "request-not-served", where)
            whole = sum(1 for b in bounds if b <= cut)
            for _ in range(50 if multi and c["wait"] else 0):
                if svc.seen and len(svc.seen[0].reqs) >= whole:
                    break
                time.sleep(0.002)
        if c["end"] == "rst":
            reset(s)
        else:
            s.shutdown(socket.SHUT_WR)
            answer = b""
            while True:
                x = s.recv(65536)
                answer += x
                if not x:
                    break
    except ConnectionError:
        pass
    except TimeoutError:
        check(False, "truncated-request-keeps-connection-open", where)
    finally:
        s.close()
    check(slot.wait(1, 1, TIMEOUT), "truncated-request-never-ends", where)
    want = [msgs.nreq(r) for r in c["reqs"]]
    for x in svc.seen:
        check(multi, "handler-ran-on-truncated-request", where)
        check(not x.ended, "handler-saw-clean-end", where)
        check(x.reqs == want[: len(x.reqs)] and len(x.reqs) <= sum(1 for b in bounds if b <= cut), "delivered-not-a-prefix", where)
    rec.label(f"{c['server']}/{c['framing']}/{c['end']}")
    if svc.seen:
        rec.label(f"handler saw {min(len(svc.seen[0].reqs), 2)}")
    rec.label(f"{protocol}/{kind}")
    if cut:
        rec.nontrivial(f"raw {c['server']} {c['framing']} {c['end']}")


# -- responses cut off on their way to a client -----------------------------------------------------


class RawServer:
    """Reads a request, sends given bytes and ends the connection in a given way."""

    def __init__(self) -> None:
        sock.real_clock()
        self.listener = socket.create_server(("0.0.0.0", 0), backlog=128)
        self.port = self.listener.getsockname()[1]
        self.answer: list[bytes] = []
        self.end = "fin"
        self.early = False
        self.delay = 0.0
        self.hosts = 0
        threading.Thread(target=self._accept, daemon=True).start()

    def _accept(self) -> None:
        while True:
            s, _ = self.listener.accept()
            threading.Thread(target=self._serve, args=(s,), daemon=True).start()

    def _serve(self, s: socket.socket) -> None:
        try:
            s.settimeout(TIMEOUT)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            if not self._request(s):
                s.close()
                return
            for x in self.answer:
                s.sendall(x)
            if self.delay:
                time.sleep(self.delay)
            if self.end == "rst":
                reset(s)
                return
            s.shutdown(socket.SHUT_WR)
            while s.recv(65536):
                pass
            s.close()
        except OSError:
            s.close()

    def _request(self, s: socket.socket) -> bool:
        f = s.makefile("rb")
        if not f.readline():
            return False
        length, is_chunked = 0, False
        while (line := f.readline().strip()):
            name, _, value = line.decode("latin-1").partition(":")
            if name.lower() == "content-length":
                length = int(value)
            is_chunked |= name.lower() == "transfer-encoding"
        if self.early:
            return True
        if not is_chunked:
            return len(f.read(length)) == length
        while True:
            n = int(f.readline() or b"0", 16)
            f.read(n + 2)
            if n == 0:
                return True


    def host(self) -> str:
        """A different one each time, for no connection to be used twice."""
        self.hosts = self.hosts % 0xFFFF + 1
        return f"127.77.{self.hosts >> 8}.{self.hosts & 255}"


raw_server = functools.cache(RawServer)


def response_strategy(cut: bool) -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "flavour": st.sampled_from(["async", "sync"]),
            "kind": st.sampled_from(["unary", "client", "server", "server", "bidi"]),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "codec": st.sampled_from(["proto", "json"]),
            "enc": ENC,
            "mask": st.lists(st.booleans(), min_size=1, max_size=3),
            "ress": st.lists(msgs.ress(5000), max_size=4),
            "error": st.one_of(st.none(), st.none(), rpc.CONNECT_ERRORS),
            "trailers": rpc.HEADER_LIST,
            "framing": st.sampled_from(["length", "chunked", "chunked", "close"]),
            "end": st.sampled_from(["fin", "rst"] if cut else ["fin"]),
            "early": st.sampled_from([False, False, True]),
            "delay": st.sampled_from([0.0, 0.0, 0.02]),
            "at": st.one_of(st.integers(0, 60), st.integers(0, 10**6)) if cut else st.just(None),
            "mutations": st.just([]) if cut else st.lists(MUTATION.filter(bool), max_size=2),
            "headers": st.booleans() if cut else st.just(True),
            "plan": rpc.PLAN,
        }
    )


def response_test(c: dict, rec: Any) -> None:
    kind, protocol = c["kind"], c["protocol"]
    unary_connect = kind == "unary" and protocol == "connect"
    if kind in ("unary", "client"):
        c = {**c, "ress": (c["ress"] or [{"text": "x"}])[:1]}
    framing = c["framing"]
    if framing != "chunked" and protocol == "grpc":
        framing = "chunked"  # trailers need it
    if framing == "close" and unary_connect:
        framing = "length"  # nothing else tells the end
    if unary_connect:
        p = msgs.ref_encode(c["codec"], msgs.g_res(c["ress"][0]))
        headers = [("content-type", f"application/{c['codec']}")]
        if c["enc"]:
            headers.append(("content-encoding", c["enc"]))
            p = wire.compress(c["enc"], p)
        body, trailers, bounds = p, [], [len(p)]
        c = {**c, "error": None}
    else:
        headers, body, trailers = response(c)
        bounds = boundaries([wire.env(f, d) for f, d in wire.parse_envs(body)])
    pieces = [p for p in http.split(body, c["plan"]) if p]
    if framing == "length":
        headers = [*headers, ("content-length", str(len(body)))]
        parts = pieces
    elif framing == "chunked":
        headers = [*headers, ("transfer-encoding", "chunked")]
        parts = chunked(pieces, trailers)
    else:
        parts = pieces
    start = head("HTTP/1.1 200 OK", [*headers, ("connection", "close")])
    payload = b"".join(parts)
    srv = raw_server()
    if c["at"] is None:
        data = start + payload
        for m in c["mutations"]:
            data = mutate(data, m)
        cut = None
        where = f"{c['mutations']}"
        srv.answer = [data[i : i + 3000] for i in range(0, len(data), 3000)]
    elif c["headers"]:
        if not payload:
            return
        cut = c["at"] % len(payload)
        where = f"cut at {cut} of {len(payload)} ({framing}, {c['end']})"
        # whole chunks on their own, as long as there are few
        parts = parts if len(parts) < 64 else [payload]
        left, srv.answer = cut, [start]
        for p in parts:
            srv.answer.append(p[:left])
            left -= len(p[:left])
        srv.answer = [x for x in srv.answer if x]
    else:
        cut = c["at"] % len(start)
        where = f"cut in the headers at {cut} of {len(start)}"
        srv.answer = [start[:cut]]
    srv.end, srv.early, srv.delay = c["end"], c["early"], c["delay"]
    kw: dict = dict(
        protocol=rpc.PROTOCOLS[protocol], codec=rpc.codec(c["codec"]),
        accept_compression=rpc.comps(["gzip", "br", "zstd"]), send_compression=None, timeout_ms=int(TIMEOUT * 1000),
    )
    t = time.monotonic()
    r, _, _ = interop.make_call(c["flavour"], "1", srv.port, kind, [rpc.mk_req("py", {"text": "q"})], "py", {}, host=srv.host(), **kw)
    took = time.monotonic() - t
    check(took < TIMEOUT * 0.9, "broken-response-leaves-call-waiting", where)
    if r.error is not None:
        rpc.observed_error(r.error)
    if cut is not None:
        want = [msgs.nres(x) for x in c["ress"]]
        # The end of the stream arrived, if not that of the HTTP message.
        done = framing == "chunked" and protocol != "grpc" and c["headers"] and cut >= len(payload) - len(parts[-1])
        if not done:
            check(r.error is not None, "truncated-response-looks-successful", lambda: f"{where}: {r.messages}")
        check(r.messages == want[: len(r.messages)], "delivered-not-a-prefix", lambda: f"{where}: {r.messages}")
        if kind in ("unary", "client") and r.error is not None:
            check(not r.messages, "message-from-truncated-response", where)
        if framing != "chunked" and c["headers"]:
            whole = sum(1 for b in bounds if b <= cut)
            check(len(r.messages) <= whole, "delivered-too-much", where)
    elif not c["mutations"] and not c["early"]:
        want = [msgs.nres(x) for x in c["ress"]]
        check((r.error is None) == (c["error"] is None), "raw-outcome-differs", lambda: f"{where}: {r.error!r} want {c['error']}")
        if c["error"] is None or kind in ("server", "bidi"):
            check(r.messages == want, "raw-messages-differ", lambda: f"{where}: {r.messages} want {want}")
    rec.label(f"{c['flavour']}/{framing}/{c['end']}")
    rec.label(f"{protocol}/{kind}")
    rec.label("error" if r.error is not None else "success")
    if cut is None or cut:
        rec.nontrivial(f"raw {c['flavour']} {protocol} {framing}")


# -- requests that their caller breaks off --------------------------------------------------------


def caller_strategy() -> st.SearchStrategy:
    def http1(c: dict) -> dict:
        # HTTP/1.1 has no trailers here
        if not c["pair"].endswith("2") and c["protocol"] == "grpc":
            c = {**c, "protocol": "grpcweb"}
        return c

    return st.fixed_dictionaries(
        {
            "pair": st.sampled_from(interop.PAIRS),
            "kind": st.sampled_from(["client", "bidi"]),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "codec": st.sampled_from(["proto", "json"]),
            "send": rpc.ENCODINGS,
            "reqs": st.lists(msgs.reqs(9000), max_size=4),
            "interleave": st.booleans(),
            "error": st.sampled_from(["ValueError", "RuntimeError", "ConnectError", "OSError", "KeyError"]),
            "pause": st.booleans(),
        }
    ).map(http1)


def caller_test(c: dict, rec: Any) -> None:
    """The caller's iterator of requests raises: the call fails, and the handler does not take it for the end."""
    import asyncio
    import builtins

    from connectrpc.code import Code
    from connectrpc.errors import ConnectError

    kind, k = c["kind"], len(c["reqs"])
    caller, server = c["pair"].split("-")
    slot, port = sock.werkzeug() if server == "wsgi" else sock.hypercorn()
    svc = rpc.Script(ress=[{"text": "r"}] * (k if kind == "bidi" else 1), interleave=[1] if c["interleave"] and kind == "bidi" else None)
    slot.app = rpc.make_app("wsgi" if server == "wsgi" else "asgi", svc, compressions=rpc.comps(["gzip", "br", "zstd"]))
    slot.reset()
    version = "2" if server == "2" else "1"
    reqs = [rpc.mk_req("py", q) for q in c["reqs"]] + [None]
    kw: dict = dict(
        protocol=rpc.PROTOCOLS[c["protocol"]], codec=rpc.codec(c["codec"]), timeout_ms=int(TIMEOUT * 1000),
        send_compression=rpc.comp(c["send"]) if c["send"] else None,
    )

    def boom() -> Exception:
        return ConnectError(Code.ABORTED, "boom") if c["error"] == "ConnectError" else getattr(builtins, c["error"])("boom")

    addr = f"http://{sock.HOST}:{port}"
    token = {"x-token": slot.token}
    t = time.monotonic()
    if caller == "async":

        async def gate(i: int) -> None:
            if c["pause"]:
                await asyncio.sleep(0.005)
            if i == k:
                raise boom()

        r = interop.runner().run(rpc.acall(rpc.aclient(interop.transport("async", version), addr, **kw), kind, reqs, gate=gate, headers=token))
    else:

        def pull(i: int) -> None:
            if c["pause"]:
                time.sleep(0.005)
            if i == k:
                raise boom()

        r = rpc.scall(rpc.sclient(interop.transport("sync", version), addr, **kw), kind, reqs, on_pull=pull, headers=token)
    where = f"{c['pair']} {c['protocol']} {kind} after {k}"
    check(time.monotonic() - t < TIMEOUT * 0.9, "failed-request-stream-leaves-call-waiting", where)
    check(r.error is not None, "failed-request-stream-looks-successful", lambda: f"{where}: {r.messages}")
    check(slot.idle(TIMEOUT), "truncated-request-never-ends", where)
    want = [msgs.nreq(q) for q in c["reqs"]]
    for s in svc.seen:
        check(not s.ended, "handler-saw-clean-end", where)
        check(s.reqs == want[: len(s.reqs)], "delivered-not-a-prefix", where)
    rec.label(c["pair"])
    rec.label(f"{c['protocol']}/{kind}")
    if k:
        rec.nontrivial(f"caller {c['pair']} {kind}")
