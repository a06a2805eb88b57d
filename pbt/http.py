"""Drives applications through raw ASGI / WSGI, checks that they obey those interfaces, and
connects library clients to applications without sockets, threads or real time."""

from __future__ import annotations

import asyncio
import contextvars
import io
import re
import zlib
from dataclasses import dataclass, field
from typing import Any, Callable, Iterator
from urllib.parse import unquote, urlsplit

import brotli
import pyqwest
import zstandard

from . import vclock
from .core import Violation, check


@dataclass
class HttpOut:
    status: int = 0
    headers: list[tuple[str, str]] = field(default_factory=list)
    body: bytes = b""
    chunks: list[bytes] = field(default_factory=list)
    trailers: list[tuple[str, str]] | None = None
    exc: BaseException | None = None
    complete: bool = False
    leaked: list[str] = field(default_factory=list)
    unhandled: list[dict] = field(default_factory=list)
    log: list[tuple] = field(default_factory=list)

    def header(self, name: str) -> str | None:
        v = [v for k, v in self.headers if k == name]
        return v[0] if v else None

    def getall(self, name: str) -> list[str]:
        return [v for k, v in self.headers if k == name]


def split(data: bytes, plan: list[int]) -> list[bytes]:
    """Cuts data into chunks following the (cyclic) plan of sizes; 0 makes an empty chunk."""
    if not plan or not any(plan):
        return [data]
    out: list[bytes] = []
    i = k = 0
    while i < len(data):
        n = plan[k % len(plan)]
        k += 1
        if n == 0:
            if len(out) < 2 * len(data) + 8:
                out.append(b"")
            continue
        out.append(data[i : i + n])
        i += n
        if len(out) > 3000:
            out.append(data[i:])
            break
    return out or [b""]


# -- ASGI -----------------------------------------------------------------------------------


def asgi_scope(
    method: str = "POST",
    path: str = "/",
    query: bytes = b"",
    headers: list[tuple[str, str]] = (),  # type: ignore[assignment]
    *,
    root_path: str = "",
    scheme: str = "http",
    client: tuple[str, int] | None = ("127.0.0.1", 111),
    trailers: bool = True,
    http_version: str = "2",
) -> dict:
    return {
        "type": "http",
        "asgi": {"version": "3.0", "spec_version": "2.5"},
        "http_version": http_version,
        "method": method,
        "scheme": scheme,
        "path": path,
        "raw_path": path.encode(),
        "query_string": query,
        "root_path": root_path,
        "headers": [(k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in headers],
        "client": client,
        "server": ("127.0.0.1", 80),
        "extensions": {"http.response.trailers": {}} if trailers else {},
    }


class AsgiRecorder:
    """Validates the message sequence an application sends."""

    def __init__(self, out: HttpOut) -> None:
        self.out = out
        self.state = "new"  # new -> started -> body-done -> done
        self.wants_trailers = False

    def feed(self, msg: dict) -> None:
        out = self.out
        t = msg.get("type")
        if t == "http.response.start":
            check(self.state == "new", "asgi:start-twice", self.state)
            st = msg["status"]
            check(isinstance(st, int) and 200 <= st <= 599, "asgi:status", repr(st))
            out.status = st
            for k, v in msg.get("headers", []):
                check(isinstance(k, bytes) and isinstance(v, bytes), "asgi:header-type", repr((k, v)))
                check(k == k.lower(), "asgi:header-case", repr(k))
                check(not re.search(rb"[\r\n\x00]", v), "asgi:header-newline", repr((k, v)))
                out.headers.append((k.decode("utf-8"), v.decode("utf-8")))
            self.wants_trailers = bool(msg.get("trailers", False))
            self.state = "started"
        elif t == "http.response.body":
            check(self.state == "started", "asgi:body-out-of-order", self.state)
            b = msg.get("body", b"")
            check(isinstance(b, bytes), "asgi:body-type", type(b).__name__)
            out.chunks.append(b)
            out.body += b
            if not msg.get("more_body", False):
                self.state = "body-done" if self.wants_trailers else "done"
        elif t == "http.response.trailers":
            check(self.state == "body-done", "asgi:trailers-out-of-order", self.state)
            if out.trailers is None:
                out.trailers = []
            for k, v in msg.get("headers", []):
                check(isinstance(k, bytes) and isinstance(v, bytes), "asgi:trailer-type", repr((k, v)))
                check(k == k.lower(), "asgi:trailer-case", repr(k))
                out.trailers.append((k.decode("utf-8"), v.decode("utf-8")))
            if not msg.get("more_trailers", False):
                self.state = "done"
        else:
            raise Violation("asgi:unknown-message", repr(t))
        if self.state == "done":
            out.complete = True


async def asgi_serve(
    app: Any,
    scope: dict,
    events: list[Any],
    out: HttpOut,
    *,
    on_send: Callable[[dict], Any] | None = None,
    end: str = "block",
) -> None:
    """events: receive() messages (dict), or ("sleep", seconds) before the next one.
    When exhausted, receive() blocks until the response is complete, then reports a disconnect
    (end="block"), or reports a disconnect at once (end="disconnect")."""
    rec = AsgiRecorder(out)
    queue = list(events)
    done = asyncio.get_running_loop().create_future()

    async def receive() -> dict:
        while queue:
            e = queue.pop(0)
            if isinstance(e, tuple) and e[0] == "sleep":
                await asyncio.sleep(e[1])
                continue
            if e["type"] == "http.disconnect":
                queue.insert(0, e)
                out.log.append(("disconnect",))
            else:
                out.log.append(("recv", len(e.get("body", b"")), e.get("more_body", False)))
            return e
        if end == "block":
            await asyncio.shield(done)
        out.log.append(("disconnect",))
        return {"type": "http.disconnect"}

    async def send(msg: dict) -> None:
        out.log.append(("send", msg["type"].rsplit(".", 1)[1], len(msg.get("body", b""))))
        rec.feed(msg)
        if out.complete and not done.done():
            done.set_result(None)
        if on_send is not None:
            r = on_send(msg)
            if asyncio.iscoroutine(r):
                await r
        await asyncio.sleep(0)

    try:
        await app(scope, receive, send)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        out.exc = e
    finally:
        if not done.done():
            done.set_result(None)


def body_events(chunks: list[bytes], *, trailing_empty: bool = False) -> list[dict]:
    ev = [{"type": "http.request", "body": c, "more_body": True} for c in chunks]
    if not ev or trailing_empty:
        ev.append({"type": "http.request", "body": b"", "more_body": False})
    else:
        ev[-1] = {**ev[-1], "more_body": False}
    return ev


def asgi_call(app: Any, scope: dict, events: list[Any], **kw: Any) -> HttpOut:
    out = HttpOut()
    o = vclock.run(lambda: asgi_serve(app, scope, events, out, **kw))
    out.leaked, out.unhandled = o.leaked, o.unhandled
    return out


# -- WSGI -----------------------------------------------------------------------------------


class ChunkedInput:
    """wsgi.input that returns data in scripted pieces (short reads), like a socket would."""

    def __init__(self, chunks: list[bytes] | Iterator[bytes]) -> None:
        self._it = iter(chunks)
        self._buf = b""
        self.eof = False
        self.reads = 0
        self.consumed = 0
        self.limit: int | None = None  # CONTENT_LENGTH; a socket blocks when read past it
        self.past: str | None = None

    def _fill(self) -> bool:
        while not self._buf:
            try:
                self._buf = bytes(next(self._it))
            except StopIteration:
                self.eof = True
                return False
        return True

    def read(self, size: int = -1) -> bytes:
        self.reads += 1
        if self.limit is not None:
            left = self.limit - self.consumed
            if size is None or size < 0 or size > left:
                self.past = self.past or f"read({size}) with {left} of {self.limit} bytes left"
                size = left
        if size is None or size < 0:
            out = bytearray()
            while self._fill():
                out += self._buf
                self._buf = b""
            self.consumed += len(out)
            return bytes(out)
        if size == 0 or not self._fill():
            return b""
        r, self._buf = self._buf[:size], self._buf[size:]
        self.consumed += len(r)
        return r

    def readline(self, size: int = -1) -> bytes:
        data = b""
        while (size < 0 or len(data) < size) and self._fill():
            c = self.read(1)
            data += c
            if c == b"\n":
                break
        return data

    def readlines(self, _hint: int = -1) -> list[bytes]:
        return list(self)

    def __iter__(self) -> Iterator[bytes]:
        while line := self.readline():
            yield line


def wsgi_environ(
    method: str = "POST",
    path: str = "/",
    query: str = "",
    headers: list[tuple[str, str]] = (),  # type: ignore[assignment]
    inp: Any = None,
    *,
    script_name: str = "",
    scheme: str = "http",
    client: tuple[str, int | None] | None = ("127.0.0.1", 111),
    server_protocol: str = "HTTP/2",
    content_length: int | None = None,
) -> dict:
    env: dict[str, Any] = {
        "REQUEST_METHOD": method,
        "SCRIPT_NAME": script_name,
        "PATH_INFO": path,
        "QUERY_STRING": query,
        "SERVER_NAME": "127.0.0.1",
        "SERVER_PORT": "80",
        "SERVER_PROTOCOL": server_protocol,
        "wsgi.version": (1, 0),
        "wsgi.url_scheme": scheme,
        "wsgi.input": inp if inp is not None else io.BytesIO(b""),
        "wsgi.errors": io.StringIO(),
        "wsgi.multithread": True,
        "wsgi.multiprocess": False,
        "wsgi.run_once": False,
    }
    if client is not None:
        env["REMOTE_ADDR"] = client[0]
        if client[1] is not None:
            env["REMOTE_PORT"] = str(client[1])
    if content_length is not None:
        env["CONTENT_LENGTH"] = str(content_length)
    for k, v in headers:
        n = k.upper().replace("-", "_")
        if n not in ("CONTENT_TYPE", "CONTENT_LENGTH"):
            n = "HTTP_" + n
        env[n] = f"{env[n]},{v}" if n in env and n.startswith("HTTP_") else v
    cl = env.get("CONTENT_LENGTH", "")
    if not cl and server_protocol.startswith("HTTP/1"):
        # The only way to send a body of unknown length; without it, there is none.
        if method in ("GET", "HEAD"):
            cl = "0"
        else:
            env["HTTP_TRANSFER_ENCODING"] = "chunked"
    if isinstance(inp, ChunkedInput) and cl.isascii() and cl.isdecimal():
        inp.limit = int(cl)
    return env


class WsgiResponse:
    """Runs a WSGI application lazily and validates what it does."""

    def __init__(self, app: Any, environ: dict, out: HttpOut, *, trailers: bool = True) -> None:
        self.out = out
        self._started = False
        self._sent_trailers = 0
        if trailers:
            environ["wsgi.ext.http.send_trailers"] = self._send_trailers
        self._input = environ["wsgi.input"]
        it = app(environ, self._start)
        self._check_input()
        check(it is not None, "wsgi:returned-none")
        self._iterable = it
        self._iter = iter(it)
        self._closed = False

    def _check_input(self) -> None:
        past = getattr(self._input, "past", None)
        # PEP 3333: servers need not end the input there
        check(past is None, "wsgi:read-past-content-length", past)

    def _start(self, status: str, headers: list, exc_info: Any = None) -> Callable:
        check(not self._started or exc_info, "wsgi:start-response-twice")
        check(isinstance(status, str) and re.fullmatch(r"\d{3} .+", status), "wsgi:status", repr(status))
        check(type(headers) is list, "wsgi:headers-type", type(headers).__name__)
        self._started = True
        self.out.status = int(status[:3])
        self.out.headers = []
        for item in headers:
            k, v = item
            check(type(k) is str and type(v) is str, "wsgi:header-type", repr(item))
            check(not re.search(r"[\r\n\x00]", k + v), "wsgi:header-newline", repr(item))
            self.out.headers.append((k.lower(), v))
        return lambda _b: None

    def _send_trailers(self, headers: list) -> None:
        check(self._started, "wsgi:trailers-before-start")
        self._sent_trailers += 1
        check(self._sent_trailers == 1, "wsgi:trailers-twice")
        self.out.trailers = []
        for k, v in headers:
            check(type(k) is str and type(v) is str, "wsgi:trailer-type", repr((k, v)))
            self.out.trailers.append((k.lower(), v))

    def next_chunk(self) -> bytes | None:
        try:
            c = next(self._iter)
        except StopIteration:
            check(self._started, "wsgi:no-start-response")
            self._check_input()
            self.out.complete = True
            return None
        check(self._started, "wsgi:body-before-start")
        check(self._sent_trailers == 0 or not c, "wsgi:body-after-trailers", repr(c[:40]))
        check(type(c) is bytes, "wsgi:body-type", type(c).__name__)
        self.out.chunks.append(c)
        self.out.body += c
        return c

    def close(self) -> None:
        if not self._closed:
            self._closed = True
            close = getattr(self._iterable, "close", None)
            if close:
                close()
            self._check_input()


def wsgi_call(app: Any, environ: dict, *, trailers: bool = True) -> HttpOut:
    out = HttpOut()
    resp = None
    try:
        resp = WsgiResponse(app, environ, out, trailers=trailers)
        while resp.next_chunk() is not None:
            pass
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        out.exc = e
    finally:
        if resp is not None:
            resp.close()
    return out


# -- one call, either server flavour ----------------------------------------------------------


def call(
    flavour: str,
    app: Any,
    method: str,
    path: str,
    headers: list[tuple[str, str]],
    body: bytes = b"",
    *,
    query: str = "",
    plan: list[int] | None = None,
    trailing_empty: bool = False,
    trailers: bool = True,
    root: str = "",
    scheme: str = "http",
    client: Any = ("127.0.0.1", 111),
    content_length: int | None | str = "auto",
    http1: bool = False,
) -> HttpOut:
    chunks = split(body, plan or [])
    if flavour == "asgi":
        scope = asgi_scope(
            method, (root + path) if root else path, query.encode("ascii"), headers,
            root_path=root, scheme=scheme, client=client, trailers=trailers,
            http_version="1.1" if http1 else "2",
        )
        return asgi_call(app, scope, body_events(chunks, trailing_empty=trailing_empty))
    stream = any(
        k == "content-type" and (v.startswith("application/connect+") or v.startswith("application/grpc"))
        for k, v in headers
    )
    cl: int | None
    if content_length == "auto":
        cl = None if stream else len(body)
    else:
        cl = content_length  # type: ignore[assignment]
    env = wsgi_environ(
        method, path, query, headers, ChunkedInput(chunks), script_name=root, scheme=scheme,
        client=client, content_length=cl, server_protocol="HTTP/1.1" if http1 else "HTTP/2",
    )
    return wsgi_call(app, env, trailers=trailers)


# -- client transports -------------------------------------------------------------------------


def _inflate(encoding: str | None, data: bytes) -> bytes:
    """What pyqwest's HTTP transport does with a content-encoding it knows."""
    if encoding == "gzip":
        return zlib.decompress(data, 31)
    if encoding == "br":
        return brotli.decompress(data)
    if encoding == "zstd":
        return zstandard.ZstdDecompressor().decompressobj().decompress(data)
    return data


@dataclass
class SeenRequest:
    method: str = ""
    url: str = ""
    path: str = ""
    query: str = ""
    headers: list[tuple[str, str]] = field(default_factory=list)
    body: bytes = b""
    chunks: list[bytes] = field(default_factory=list)
    streamed: bool = False


def _seen(request: Any) -> SeenRequest:
    u = urlsplit(request.url)
    hs = [(k, v) for k, v in request.headers.items()]
    if not any(k == "host" for k, _ in hs):
        hs.append(("host", u.netloc))
    return SeenRequest(
        method=request.method, url=request.url, path=unquote(u.path) or "/", query=u.query, headers=hs,
        streamed=not isinstance(request.content, bytes),
    )


class Canned:
    """A response decided in advance: status, headers, body chunks, trailers; `fail` is an
    exception raised after the last chunk instead of a clean end, `delay` virtual seconds before
    the response and between chunks."""

    def __init__(
        self,
        status: int,
        headers: list[tuple[str, str]],
        chunks: list[bytes],
        trailers: list[tuple[str, str]] | None = None,
        fail: Callable[[], Exception] | None = None,
        delay: float = 0.0,
        chunk_delay: float = 0.0,
    ) -> None:
        self.status, self.headers, self.chunks = status, headers, chunks
        self.trailers, self.fail, self.delay, self.chunk_delay = trailers, fail, delay, chunk_delay


class CannedAsync:
    """pyqwest Transport answering every request with respond(SeenRequest) -> Canned."""

    def __init__(self, respond: Callable[[SeenRequest], Canned], *, read_body: bool = True, inflate: bool = True) -> None:
        self.respond, self.read_body, self.inflate = respond, read_body, inflate
        self.requests: list[SeenRequest] = []

    async def execute(self, request: Any) -> Any:
        seen = _seen(request)
        self.requests.append(seen)
        if self.read_body:
            if isinstance(request.content, bytes):
                seen.body = request.content
                seen.chunks = [request.content]
            else:
                async for c in request.content:
                    check(isinstance(c, (bytes, memoryview, bytearray)), "client:body-chunk-type", type(c).__name__)
                    seen.chunks.append(bytes(c))
                    seen.body += bytes(c)
        r = self.respond(seen)
        if r.delay:
            await asyncio.sleep(r.delay)
        enc = dict(r.headers).get("content-encoding") if self.inflate else None
        chunks = r.chunks
        if enc and enc != "identity":
            chunks = [_inflate(enc, b"".join(chunks))]
        trailers = pyqwest.Headers()

        async def gen() -> Any:
            for c in chunks:
                if r.chunk_delay:
                    await asyncio.sleep(r.chunk_delay)
                yield c
            for k, v in r.trailers or ():
                trailers.add(k, v)
            if r.fail is not None:
                raise r.fail()

        return pyqwest.Response(
            status=r.status, headers=pyqwest.Headers(r.headers), content=gen(), trailers=trailers
        )


class CannedSync:
    def __init__(self, respond: Callable[[SeenRequest], Canned], *, read_body: bool = True, inflate: bool = True) -> None:
        self.respond, self.read_body, self.inflate = respond, read_body, inflate
        self.requests: list[SeenRequest] = []

    def execute_sync(self, request: Any) -> Any:
        seen = _seen(request)
        self.requests.append(seen)
        if self.read_body:
            if isinstance(request.content, bytes):
                seen.body = request.content
                seen.chunks = [request.content]
            else:
                for c in request.content:
                    check(isinstance(c, (bytes, memoryview, bytearray)), "client:body-chunk-type", type(c).__name__)
                    seen.chunks.append(bytes(c))
                    seen.body += bytes(c)
        r = self.respond(seen)
        enc = dict(r.headers).get("content-encoding") if self.inflate else None
        chunks = r.chunks
        if enc and enc != "identity":
            chunks = [_inflate(enc, b"".join(chunks))]
        trailers = pyqwest.Headers()

        def gen() -> Any:
            for c in chunks:
                yield c
            for k, v in r.trailers or ():
                trailers.add(k, v)
            if r.fail is not None:
                raise r.fail()

        return pyqwest.SyncResponse(
            status=r.status, headers=pyqwest.Headers(r.headers), content=gen(), trailers=trailers
        )


class AsgiLoopback:
    """Async client <-> ASGI application, full duplex, both bodies re-cut, contexts isolated."""

    def __init__(
        self,
        app: Any,
        *,
        req_plan: list[int] | None = None,
        res_plan: list[int] | None = None,
        client: Any = ("127.0.0.1", 111),
        cancel_on_disconnect: bool = False,
    ) -> None:
        self.app, self.req_plan, self.res_plan, self.client = app, req_plan or [], res_plan or [], client
        self.cancel_on_disconnect = cancel_on_disconnect
        self.requests: list[SeenRequest] = []
        self.outs: list[HttpOut] = []
        self.log: list[tuple] = []
        self.server_tasks: list[asyncio.Task] = []

    async def execute(self, request: Any) -> Any:
        seen = _seen(request)
        self.requests.append(seen)
        out = HttpOut()
        self.outs.append(out)
        rec = AsgiRecorder(out)
        loop = asyncio.get_running_loop()
        scheme = urlsplit(request.url).scheme
        scope = asgi_scope(
            seen.method, seen.path, seen.query.encode(),
            [(k, v) for k, v in seen.headers], scheme=scheme, client=self.client,
        )
        reqq: asyncio.Queue = asyncio.Queue(1)
        resq: asyncio.Queue = asyncio.Queue()
        started = loop.create_future()
        gone = loop.create_future()

        async def pump() -> None:
            content = request.content
            try:
                if isinstance(content, bytes):
                    parts = split(content, self.req_plan)
                    for p in parts:
                        seen.body += p
                        await reqq.put((p, True))
                else:
                    async for c in content:
                        seen.chunks.append(bytes(c))
                        for p in split(bytes(c), self.req_plan):
                            seen.body += p
                            await reqq.put((p, True))
                await reqq.put((b"", False))
            except Exception as e:  # noqa: BLE001
                await reqq.put((e, False))
            finally:
                aclose = getattr(content, "aclose", None)
                if aclose is not None:
                    await aclose()

        pump_task = asyncio.ensure_future(pump())

        ended = False

        async def receive() -> dict:
            nonlocal ended
            if not ended and not gone.done():
                get = asyncio.ensure_future(reqq.get())
                try:
                    await asyncio.wait([get, gone], return_when=asyncio.FIRST_COMPLETED)
                finally:
                    if not get.done():
                        get.cancel()
                if get.done() and not get.cancelled():
                    item, more = get.result()
                    if isinstance(item, Exception):
                        gone.done() or gone.set_result(None)
                        ended = True
                        return {"type": "http.disconnect"}
                    if not more:
                        ended = True
                    return {"type": "http.request", "body": item, "more_body": more}
            await asyncio.shield(gone)
            return {"type": "http.disconnect"}

        async def send(msg: dict) -> None:
            rec.feed(msg)
            self.log.append(("send", msg["type"].rsplit(".", 1)[1]))
            if msg["type"] == "http.response.start":
                started.done() or started.set_result(None)
            else:
                resq.put_nowait(msg)
            if out.complete:
                gone.done() or gone.set_result(None)
            await asyncio.sleep(0)

        async def run_app() -> None:
            try:
                await self.app(scope, receive, send)
            except Violation as e:
                out.exc = e
                raise
            except Exception as e:  # noqa: BLE001
                out.exc = e
            finally:
                if not started.done():
                    started.set_result(None)
                resq.put_nowait(None)

        task = contextvars.Context().run(lambda: loop.create_task(run_app()))
        self.server_tasks.append(task)
        try:
            await started
        except BaseException:
            gone.done() or gone.set_result(None)
            pump_task.cancel()
            if self.cancel_on_disconnect:
                task.cancel()
            raise
        if isinstance(out.exc, Violation):
            raise out.exc
        if not out.status:
            raise pyqwest.ReadError("connection closed before a response")
        trailers = pyqwest.Headers()
        encoding = out.header("content-encoding")

        async def content() -> Any:
            held = b""
            try:
                while True:
                    msg = await resq.get()
                    if msg is None:
                        if isinstance(out.exc, Violation):
                            raise out.exc
                        if not out.complete:
                            raise pyqwest.ReadError("connection closed mid-response")
                        break
                    if msg["type"] == "http.response.trailers":
                        for k, v in msg["headers"]:
                            trailers.add(k.decode(), v.decode())
                        if not msg.get("more_trailers", False):
                            break
                        continue
                    body = msg.get("body", b"")
                    if encoding and encoding != "identity":
                        held += body
                        if not msg.get("more_body", False):
                            yield _inflate(encoding, held)
                    else:
                        for p in split(body, self.res_plan):
                            yield p
                    if not msg.get("more_body", False) and not rec.wants_trailers:
                        break
            finally:
                gone.done() or gone.set_result(None)
                pump_task.cancel()
                if self.cancel_on_disconnect and not task.done():
                    task.cancel()

        return pyqwest.Response(
            status=out.status, headers=pyqwest.Headers(out.headers), content=content(), trailers=trailers
        )


class WsgiLoopback:
    """Sync client <-> WSGI application on one thread: the application pulls request chunks from
    the client's iterator as it reads, the client pulls response chunks as it iterates."""

    def __init__(
        self,
        app: Any,
        *,
        req_plan: list[int] | None = None,
        res_plan: list[int] | None = None,
        client: Any = ("127.0.0.1", 111),
        http1: bool = False,
    ) -> None:
        self.app, self.req_plan, self.res_plan, self.client = app, req_plan or [], res_plan or [], client
        self.http1 = http1
        self.requests: list[SeenRequest] = []
        self.outs: list[HttpOut] = []
        self.environs: list[dict] = []

    def execute_sync(self, request: Any) -> Any:
        seen = _seen(request)
        self.requests.append(seen)
        out = HttpOut()
        self.outs.append(out)

        def chunks() -> Iterator[bytes]:
            src = [request.content] if isinstance(request.content, bytes) else request.content
            for c in src:
                seen.chunks.append(bytes(c))
                for p in split(bytes(c), self.req_plan):
                    seen.body += p
                    yield p

        cl = len(request.content) if isinstance(request.content, bytes) else None
        env = wsgi_environ(
            seen.method, seen.path, seen.query, seen.headers, ChunkedInput(chunks()),
            scheme=urlsplit(request.url).scheme, client=self.client, content_length=cl,
            server_protocol="HTTP/1.1" if self.http1 else "HTTP/2",
        )
        self.environs.append(env)
        # The server runs with its own context variables, as it would in another process.
        ctx = contextvars.Context()
        resp = ctx.run(lambda: WsgiResponse(self.app, env, out))
        # WSGI servers start the response with the first body chunk.
        first = ctx.run(resp.next_chunk)
        trailers = pyqwest.Headers()
        encoding = out.header("content-encoding")

        def content() -> Iterator[bytes]:
            try:
                chunk = first
                held = b""
                while chunk is not None:
                    if encoding and encoding != "identity":
                        held += chunk
                    else:
                        yield from split(chunk, self.res_plan)
                    chunk = ctx.run(resp.next_chunk)
                if encoding and encoding != "identity":
                    yield _inflate(encoding, held)
                for k, v in out.trailers or ():
                    trailers.add(k, v)
            finally:
                ctx.run(resp.close)

        return pyqwest.SyncResponse(
            status=out.status, headers=pyqwest.Headers(out.headers), content=content(), trailers=trailers
        )


class BufferedToWsgi:
    """Async client -> WSGI application (whole request buffered)."""

    def __init__(self, app: Any, *, res_plan: list[int] | None = None) -> None:
        self.app, self.res_plan = app, res_plan or []
        self.requests: list[SeenRequest] = []

    async def execute(self, request: Any) -> Any:
        def respond(seen: SeenRequest) -> Canned:
            env = wsgi_environ(
                seen.method, seen.path, seen.query, seen.headers, io.BytesIO(seen.body),
                content_length=None if seen.streamed else len(seen.body),
            )
            out = contextvars.Context().run(lambda: wsgi_call(self.app, env))
            if out.exc:
                raise out.exc
            return Canned(out.status, out.headers, split(out.body, self.res_plan), out.trailers)

        t = CannedAsync(respond)
        r = await t.execute(request)
        self.requests += t.requests
        return r


class BufferedToAsgi:
    """Sync client -> ASGI application (whole request buffered)."""

    def __init__(self, app: Any, *, res_plan: list[int] | None = None) -> None:
        self.app, self.res_plan = app, res_plan or []
        self.requests: list[SeenRequest] = []

    def execute_sync(self, request: Any) -> Any:
        def respond(seen: SeenRequest) -> Canned:
            scope = asgi_scope(seen.method, seen.path, seen.query.encode(), seen.headers)
            out = asgi_call(self.app, scope, body_events([seen.body]))
            if not out.complete:
                raise out.exc or RuntimeError("incomplete response")
            return Canned(out.status, out.headers, split(out.body, self.res_plan), out.trailers)

        t = CannedSync(respond)
        r = t.execute_sync(request)
        self.requests += t.requests
        return r
