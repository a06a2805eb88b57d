"""Real servers and clients over loopback sockets: hypercorn and werkzeug, grpcio and pyqwest.

Started on first use in a worker process, which ends them with it."""

from __future__ import annotations

import asyncio
import functools
import io
import logging
import socket
import threading
import time
from concurrent.futures import ThreadPoolExecutor
from typing import Any

from .vclock import real_time

HOST = "127.0.0.1"


class Swappable:
    """An ASGI or WSGI application that can be changed between calls."""

    def __init__(self) -> None:
        self.app: Any = None
        self.token = ""
        self.reset()

    def reset(self) -> None:
        """Counts requests from here on, and refuses those with the token of an earlier call that was given up."""
        self.count = {"begun": 0, "ended": 0}
        self.token = str(int(self.token or "0") + 1)

    def wait(self, begun: int, ended: int, timeout: float) -> bool:
        end = time.monotonic() + timeout
        while self.count["begun"] < begun or self.count["ended"] < ended:
            if time.monotonic() > end:
                return False
            time.sleep(0.001)
        return True

    def idle(self, timeout: float) -> bool:
        return self.wait(0, self.count["begun"], timeout)

    async def asgi(self, scope: Any, receive: Any, send: Any) -> None:
        if scope["type"] == "lifespan":
            while True:
                m = await receive()
                await send({"type": m["type"] + ".complete"})
                if m["type"] == "lifespan.shutdown":
                    return
        for k, v in scope["headers"]:
            if k == b"x-token" and v.decode() != self.token:
                await send({"type": "http.response.start", "status": 410, "headers": []})
                await send({"type": "http.response.body", "body": b""})
                return
        count = self.count
        count["begun"] += 1
        try:
            await self.app(scope, receive, send)
        finally:
            count["ended"] += 1

    def wsgi(self, environ: Any, start_response: Any) -> Any:
        # werkzeug gives the bare connection: reading past the body blocks
        if not environ.get("CONTENT_LENGTH") and "HTTP_TRANSFER_ENCODING" not in environ and environ["REQUEST_METHOD"] == "POST":
            # what WSGI servers that know no bodies without a length do here
            environ["wsgi.input"] = io.BytesIO()
        if environ.get("HTTP_X_TOKEN", self.token) != self.token:
            start_response("410 Gone", [("connection", "close")])
            return []
        count = self.count
        count["begun"] += 1
        try:
            return _Response(self.app(environ, start_response), count)
        except BaseException:
            count["ended"] += 1
            raise


class _Response:
    def __init__(self, body: Any, count: dict) -> None:
        self.body, self.count = body, count

    def __iter__(self) -> Any:
        return iter(self.body)

    def close(self) -> None:
        try:
            if hasattr(self.body, "close"):
                self.body.close()
        finally:
            self.count["ended"] += 1


def real_clock() -> None:
    """Deadlines of grpcio and the servers need the wall clock, see vclock.install()."""
    time.time = real_time


def _wait(port: int) -> None:
    for _ in range(1000):
        try:
            socket.create_connection((HOST, port), 5).close()
            return
        except OSError:
            time.sleep(0.02)
    raise RuntimeError("server did not start")


@functools.cache
def hypercorn() -> tuple[Swappable, int]:
    """HTTP/1.1 and HTTP/2 (by prior knowledge), ASGI."""
    real_clock()
    from hypercorn.asyncio import serve
    from hypercorn.config import Config

    s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    s.bind((HOST, 0))
    s.listen(128)
    port = s.getsockname()[1]
    app = Swappable()
    cfg = Config()
    cfg.bind = [f"fd://{s.detach()}"]
    cfg.graceful_timeout = 0.1
    # connections end when the tests say so
    cfg.keep_alive_timeout = 86400
    cfg.keep_alive_max_requests = 10**9
    # and requests left unread do not block it
    cfg.max_app_queue_size = 10_000
    cfg.errorlog = logging.getLogger("pbt.hypercorn")
    cfg.errorlog.disabled = True

    def run() -> None:
        asyncio.run(serve(app.asgi, cfg, shutdown_trigger=asyncio.Event().wait))

    threading.Thread(target=run, daemon=True).start()
    _wait(port)
    return app, port


@functools.cache
def werkzeug() -> tuple[Swappable, int]:
    """HTTP/1.1, WSGI."""
    real_clock()
    from werkzeug.serving import WSGIRequestHandler, make_server

    class Handler(WSGIRequestHandler):
        protocol_version = "HTTP/1.1"

        def log(self, *_: Any) -> None:
            pass

    app = Swappable()
    srv = make_server(HOST, 0, app.wsgi, threaded=True, request_handler=Handler)
    threading.Thread(target=srv.serve_forever, daemon=True).start()
    _wait(srv.server_port)
    return app, srv.server_port


@functools.cache
def grpc_channel(port: int) -> Any:
    real_clock()
    import grpc

    return grpc.insecure_channel(f"{HOST}:{port}")


class GrpcioServer:
    """A grpcio server; `handler` is given the path and answers with an RPC method handler."""

    def __init__(self) -> None:
        real_clock()
        import grpc

        outer = self
        self.handler: Any = None

        class Generic(grpc.GenericRpcHandler):
            def service(self, d: Any) -> Any:
                return outer.handler(d)

        self.server = grpc.server(ThreadPoolExecutor(8), handlers=[Generic()])
        self.port = self.server.add_insecure_port(f"{HOST}:0")
        self.server.start()


grpcio_server = functools.cache(GrpcioServer)
