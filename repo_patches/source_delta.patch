From b58a6d487e402db15895ddecfe7f32645d505716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 01/54] fix: reject message streams that end in the middle of a
 message

---
 src/connectrpc/_client_async.py | 1 +
 src/connectrpc/_client_sync.py  | 1 +
 src/connectrpc/_envelope.py     | 7 +++++++
 src/connectrpc/_server_async.py | 1 +
 src/connectrpc/_server_sync.py  | 1 +
 5 files changed, 11 insertions(+)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 9de08d9..6162606 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -400,6 +400,7 @@ class ConnectClient:
                             # conformance tests require it.
                             await sleep(0)
                     reader.handle_response_complete(resp)
+                    reader.finish()
                 else:
                     content = bytearray()
                     async for chunk in resp.content:
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index abdfe88..ffd0ce5 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -404,6 +404,7 @@ class ConnectClientSync:
                         raise TimeoutError
 
                     reader.handle_response_complete(resp)
+                    reader.finish()
                 else:
                     content = bytearray()
                     for chunk in resp.content:
diff --git a/src/connectrpc/_envelope.py b/src/connectrpc/_envelope.py
index 5ee8a35..711f5d7 100644
--- a/src/connectrpc/_envelope.py
+++ b/src/connectrpc/_envelope.py
@@ -83,6 +83,13 @@ class EnvelopeReader(Generic[_RES]):
 
             self._next_message_length = int.from_bytes(self._buffer[1:5], "big")
 
+    def finish(self) -> None:
+        """Called when the body ended normally to check that it ended after a complete message."""
+        if self._buffer:
+            raise ConnectError(
+                Code.INVALID_ARGUMENT, "protocol error: incomplete envelope"
+            )
+
     def handle_end_message(
         self, prefix_byte: int, message_data: bytes | bytearray
     ) -> bool:
diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index c7ed9e4..1631fea 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -575,6 +575,7 @@ async def _request_stream(
                 await sleep(0)
     except CancelledError as e:
         raise ConnectError(Code.CANCELED, "Request was cancelled") from e
+    reader.finish()
 
 
 async def _read_body(receive: ASGIReceiveCallable) -> AsyncIterator[bytes]:
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 4a19b83..27dcda8 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -575,6 +575,7 @@ def _request_stream(
     reader = EnvelopeReader(request_class, codec, compression, read_max_bytes)
     for chunk in _read_body(environ):
         yield from reader.feed(chunk)
+    reader.finish()
 
 
 def _response_stream(
-- 
2.43.0


From a1ee153e76e5dfe7c384980fbd9dfa7fcb57e775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 02/54] fix: do not deliver messages after the end-of-stream
 message

---
 src/connectrpc/_envelope.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_envelope.py b/src/connectrpc/_envelope.py
index 711f5d7..79dda91 100644
--- a/src/connectrpc/_envelope.py
+++ b/src/connectrpc/_envelope.py
@@ -38,13 +38,14 @@ class EnvelopeReader(Generic[_RES]):
         self._read_max_bytes = read_max_bytes
 
         self._next_message_length = None
+        self._ended = False
 
     def feed(self, data: bytes | memoryview | bytearray) -> Iterator[_RES]:
         self._buffer.extend(data)
         return self._read_messages()
 
     def _read_messages(self) -> Iterator[_RES]:
-        while self._buffer:
+        while self._buffer and not self._ended:
             if self._next_message_length is not None:
                 if len(self._buffer) < self._next_message_length + 5:
                     return
@@ -73,6 +74,7 @@ class EnvelopeReader(Generic[_RES]):
                     )
 
                 if self.handle_end_message(prefix_byte, message_data):
+                    self._ended = True
                     return
 
                 res = self._codec.decode(message_data, self._message_class)
@@ -85,6 +87,11 @@ class EnvelopeReader(Generic[_RES]):
 
     def finish(self) -> None:
         """Called when the body ended normally to check that it ended after a complete message."""
+        if self._ended and self._buffer:
+            raise ConnectError(
+                Code.INTERNAL,
+                f"protocol error: {len(self._buffer)} extra bytes after end of stream",
+            )
         if self._buffer:
             raise ConnectError(
                 Code.INVALID_ARGUMENT, "protocol error: incomplete envelope"
-- 
2.43.0


From 87e0d5bbfcfdb9377e2f9e7f3bff594872a2d6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 03/54] fix: treat a Connect stream without end-of-stream
 message as an error

---
 src/connectrpc/_protocol_connect.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 4997daf..f887718 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -330,3 +330,10 @@ class ConnectEnvelopeReader(EnvelopeReader[RES]):
             # and streaming.
             raise ConnectWireError.from_dict(error, 500, Code.UNKNOWN).to_exception()
         return True
+
+    def finish(self) -> None:
+        super().finish()
+        if not self._ended:
+            raise ConnectError(
+                Code.INTERNAL, "protocol error: missing end-of-stream message"
+            )
-- 
2.43.0


From 809250c72442d4dab3e8e076454de9b9e6fedc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 04/54] fix: reject truncated zstd data and decode all frames

---
 src/connectrpc/compression/zstd.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/compression/zstd.py b/src/connectrpc/compression/zstd.py
index 3923ebb..a425980 100644
--- a/src/connectrpc/compression/zstd.py
+++ b/src/connectrpc/compression/zstd.py
@@ -27,5 +27,13 @@ class ZstdCompression(Compression):
     def decompress(self, data: bytes | bytearray | memoryview) -> bytes:
         # Support clients sending frames without length by using
         # stream API.
-        with zstandard.ZstdDecompressor().stream_reader(data) as reader:
-            return reader.read()
+        res = bytearray()
+        while data:
+            frame = zstandard.ZstdDecompressor().decompressobj()
+            res += frame.decompress(data)
+            if not frame.eof:
+                msg = "zstd data ended before the end of the frame"
+                raise ValueError(msg)
+            # The data can consist of several frames.
+            data = frame.unused_data
+        return bytes(res)
-- 
2.43.0


From 26d6321b71a045fc6692d07dec5c76abe876cb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 05/54] fix: clamp timeout headers to the longest value the
 protocols can express

---
 src/connectrpc/_protocol_connect.py | 6 +++++-
 src/connectrpc/_protocol_grpc.py    | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index f887718..2f1d8c6 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -35,6 +35,8 @@ RES = TypeVar("RES")
 CONNECT_HEADER_PROTOCOL_VERSION = "connect-protocol-version"
 CONNECT_PROTOCOL_VERSION = "1"
 CONNECT_HEADER_TIMEOUT = "connect-timeout-ms"
+# The Connect protocol limits timeouts to 10 digits.
+CONNECT_MAX_TIMEOUT_MS = 9_999_999_999
 CONNECT_UNARY_CONTENT_TYPE_PREFIX = "application/"
 CONNECT_UNARY_CONTENT_TYPE_JSON = (
     f"{CONNECT_UNARY_CONTENT_TYPE_PREFIX}{CODEC_NAME_JSON}"
@@ -223,7 +225,9 @@ class ConnectClientProtocol:
             f"{CONNECT_STREAMING_CONTENT_TYPE_PREFIX if stream else CONNECT_UNARY_CONTENT_TYPE_PREFIX}{codec.name()}"
         )
         if timeout_ms is not None:
-            headers["connect-timeout-ms"] = str(timeout_ms)
+            headers[CONNECT_HEADER_TIMEOUT] = str(
+                min(timeout_ms, CONNECT_MAX_TIMEOUT_MS)
+            )
 
         server_address = url_to_server_address(url)
 
diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index a781f17..338bfa8 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -418,7 +418,7 @@ def _serialize_timeout(timeout_ms: int) -> str:
     else:
         size, unit = 60 * 60 * 1000, "H"
 
-    return f"{timeout_ms // size}{unit}"
+    return f"{min(timeout_ms // size, int(_GRPC_TIMEOUT_MAX_VALUE) - 1)}{unit}"
 
 
 _connect_status_to_grpc = {
-- 
2.43.0


From b6cca70d5c723ca679800e0706ef42d1bde5e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 06/54] fix: keep repeated values when copying Headers

---
 src/connectrpc/_headers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connectrpc/_headers.py b/src/connectrpc/_headers.py
index 092d8d7..8fe72e1 100644
--- a/src/connectrpc/_headers.py
+++ b/src/connectrpc/_headers.py
@@ -28,6 +28,8 @@ class Headers(MutableMapping[str, str]):
         self, items: Mapping[str, str] | Sequence[tuple[str, str]] = ()
     ) -> None:
         self._extra = None
+        if isinstance(items, Headers):
+            items = list(items.allitems())
         if isinstance(items, Mapping):
             # ty does not preserve type parameters when narrowing a union via
             # `isinstance(x, Mapping)`, so we re-assert `Mapping[str, str]`.
-- 
2.43.0


From d85b093a86de4a22b188e2503df76917aab20971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 07/54] fix: support membership tests and repr on the all-items
 view of Headers

---
 src/connectrpc/_headers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/connectrpc/_headers.py b/src/connectrpc/_headers.py
index 8fe72e1..10fa8b2 100644
--- a/src/connectrpc/_headers.py
+++ b/src/connectrpc/_headers.py
@@ -143,6 +143,12 @@ class _AllItemsView(ItemsView[str, str]):
                 for vv in self._extra.get(key, ()):
                     yield (key, vv)
 
+    def __contains__(self, item: object) -> bool:
+        return any(item == i for i in self)
+
+    def __repr__(self) -> str:
+        return f"{type(self).__name__}({list(self)!r})"
+
     def __len__(self) -> int:
         size = len(self._store)
         if self._extra:
-- 
2.43.0


From 35ef70d93f7fbfc998705b1a73f5f44a23b150b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 08/54] fix: derive the server address from IPv6 hosts and URLs
 with a path

---
 src/connectrpc/_protocol.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/connectrpc/_protocol.py b/src/connectrpc/_protocol.py
index f261c4f..6ffc989 100644
--- a/src/connectrpc/_protocol.py
+++ b/src/connectrpc/_protocol.py
@@ -5,6 +5,7 @@ from base64 import b64decode, b64encode
 from dataclasses import dataclass
 from http import HTTPStatus
 from typing import TYPE_CHECKING, Protocol, TypeVar, cast
+from urllib.parse import urlsplit
 
 from protobuf import message_to_json_value
 from protobuf.wkt import Any
@@ -284,7 +285,8 @@ class HTTPException(Exception):
 def host_to_server_address(host: str | None, http_scheme: str) -> str | None:
     if host is None:
         return None
-    if ":" not in host:
+    # An IPv6 literal in brackets contains colons without having a port.
+    if ":" not in host.rpartition("]")[2]:
         match http_scheme:
             case "https":
                 host += ":443"
@@ -294,11 +296,7 @@ def host_to_server_address(host: str | None, http_scheme: str) -> str | None:
 
 
 def url_to_server_address(address: str) -> str | None:
-    if address.startswith("https://"):
-        scheme = "https"
-        address = address[len("https://") :]
-    else:
-        scheme = "http"
-        address = address[len("http://") :]
-
-    return host_to_server_address(address, scheme)
+    url = urlsplit(address)
+    # The server address does not include user information or the path.
+    host = url.netloc.rpartition("@")[2]
+    return host_to_server_address(host, url.scheme)
-- 
2.43.0


From ba4e6953224668d0b45b867539f27290824f17f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 09/54] fix: report POST as the HTTP method of gRPC calls

---
 src/connectrpc/_protocol_grpc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index 338bfa8..a4e1ac4 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -236,7 +236,8 @@ class GRPCClientProtocol:
 
         return RequestContext(
             method=method,
-            http_method=http_method,
+            # gRPC calls are always sent as POST.
+            http_method="POST",
             request_headers=headers,
             timeout_ms=timeout_ms,
             server_address=server_address,
-- 
2.43.0


From 71fd6870b7549c08cc9b58f4aab32e22020a752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 10/54] fix: do not start a stream response twice when
 interrupted

---
 src/connectrpc/_server_async.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 1631fea..a353227 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -433,10 +433,12 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                     # Don't send headers until the first message to allow logic a chance to add
                     # response headers.
                     if not sent_headers:
+                        # Set before sending, which may be interrupted after the headers
+                        # are out.
+                        sent_headers = True
                         await _send_stream_response_headers(
                             send, protocol, codec, resp_compression.name(), ctx
                         )
-                        sent_headers = True
 
                     body = writer.write(message)
                     await send(
-- 
2.43.0


From 5b37d9a8ff9bf20df023c0abaddc40d3e978b20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 11/54] fix: refuse malformed timeout headers

---
 src/connectrpc/_protocol_connect.py |  8 ++++----
 src/connectrpc/_protocol_grpc.py    | 16 ++++++++++------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 2f1d8c6..10a431d 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -108,12 +108,12 @@ class ConnectServerProtocol:
                     Code.INVALID_ARGUMENT,
                     f"Invalid timeout header: '{timeout_header} has >10 digits",
                 )
-            try:
-                timeout_ms = int(timeout_header)
-            except ValueError as e:
+            # int() would accept more than digits, for example signs and underscores.
+            if not (timeout_header.isascii() and timeout_header.isdigit()):
                 raise ConnectError(
                     Code.INVALID_ARGUMENT, f"Invalid timeout header: '{timeout_header}'"
-                ) from e
+                )
+            timeout_ms = int(timeout_header)
         else:
             timeout_ms = None
 
diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index a4e1ac4..d1073be 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -61,7 +61,10 @@ class GRPCServerProtocol:
             raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
 
         timeout_header = headers.get(GRPC_HEADER_TIMEOUT)
-        timeout_ms = _parse_timeout(timeout_header) if timeout_header else None
+        try:
+            timeout_ms = _parse_timeout(timeout_header) if timeout_header else None
+        except ValueError as e:
+            raise ConnectError(Code.INVALID_ARGUMENT, str(e)) from e
 
         server_address = host_to_server_address(headers.get("host"), http_scheme)
 
@@ -124,14 +127,15 @@ class GRPCWebServerProtocol(GRPCServerProtocol):
 def _parse_timeout(timeout: str) -> int:
     # We normalize to int milliseconds matching connect's timeout header.
     value_to_ms = _lookup_timeout_unit(timeout[-1])
-    try:
-        value = int(timeout[:-1])
-    except ValueError as e:
+    # int() would accept more than digits, for example signs and underscores.
+    digits = timeout[:-1]
+    if not (digits.isascii() and digits.isdigit()):
         msg = f"protocol error: invalid timeout '{timeout}'"
-        raise ValueError(msg) from e
+        raise ValueError(msg)
+    value = int(digits)
 
     # timeout must be ASCII string of at most 8 digits
-    if value > 99999999:
+    if len(digits) > 8:
         msg = f"protocol error: timeout '{timeout}' is too long"
         raise ValueError(msg)
 
-- 
2.43.0


From eaaed3de7fb510b9ad66614f041274884437a7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 12/54] fix: report deadline exceeded when the time ran out
 before a sync call is sent

---
 src/connectrpc/_client_sync.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index ffd0ce5..6dcce3c 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -283,6 +283,8 @@ class ConnectClientSync:
         request_headers = HTTPHeaders(ctx.request_headers.allitems())
         url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
         if (timeout_ms := ctx.timeout_ms) is not None:
+            if timeout_ms <= 0:
+                raise ConnectError(Code.DEADLINE_EXCEEDED, "Request timed out")
             timeout_s = timeout_ms / 1000.0
         else:
             timeout_s = None
@@ -355,6 +357,8 @@ class ConnectClientSync:
         request_headers = HTTPHeaders(ctx.request_headers.allitems())
         url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
         if (timeout_ms := ctx.timeout_ms) is not None:
+            if timeout_ms <= 0:
+                raise ConnectError(Code.DEADLINE_EXCEEDED, "Request timed out")
             timeout_s = timeout_ms / 1000.0
         else:
             timeout_s = None
-- 
2.43.0


From 6f51c18a2277ee6c9fbc524eb6c1b38a6e088c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 13/54] fix: do not cancel the caller when a stream times out
 between messages

---
 src/connectrpc/_client_async.py | 45 +++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 6162606..03ae927 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -4,6 +4,7 @@ import asyncio
 import functools
 import sys
 from asyncio import CancelledError, sleep, wait_for
+from contextlib import AsyncExitStack
 from typing import TYPE_CHECKING, Any, Protocol, TypeVar
 from urllib.parse import urlencode
 
@@ -37,6 +38,7 @@ else:
 
 if TYPE_CHECKING:
     from collections.abc import AsyncIterator, Iterable, Mapping
+    from contextlib import AbstractAsyncContextManager
     from types import TracebackType
 
     from ._envelope import EnvelopeReader
@@ -361,11 +363,6 @@ class ConnectClient:
     ) -> AsyncIterator[RES]:
         request_headers = HTTPHeaders(ctx.request_headers.allitems())
         url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
-        if (timeout_ms := ctx.timeout_ms) is not None:
-            timeout_s = timeout_ms / 1000.0
-        else:
-            timeout_s = None
-
         reader: EnvelopeReader | None = None
         resp: Response | None = None
         try:
@@ -373,12 +370,13 @@ class ConnectClient:
                 request, self._codec, self._send_compression
             )
 
-            async with (
-                asyncio_timeout(timeout_s),
-                self._http_client.stream(
-                    "POST", url, headers=request_headers, content=request_data
-                ) as resp,
-            ):
+            async with AsyncExitStack() as stack:
+                async with _time_limit(ctx):
+                    resp = await stack.enter_async_context(
+                        self._http_client.stream(
+                            "POST", url, headers=request_headers, content=request_data
+                        )
+                    )
                 handle_response_headers(resp.headers)
                 if resp.status == 200:
                     self._protocol.validate_stream_response(
@@ -393,7 +391,12 @@ class ConnectClient:
                         compression,
                         self._read_max_bytes,
                     )
-                    async for chunk in resp.content:
+                    chunks = aiter(resp.content)
+                    while True:
+                        async with _time_limit(ctx):
+                            chunk = await anext(chunks, None)
+                        if chunk is None:
+                            break
                         for message in reader.feed(bytes(chunk)):
                             yield message
                             # Check for cancellation each message. While this seems heavyweight,
@@ -403,8 +406,9 @@ class ConnectClient:
                     reader.finish()
                 else:
                     content = bytearray()
-                    async for chunk in resp.content:
-                        content.extend(chunk)
+                    async with _time_limit(ctx):
+                        async for chunk in resp.content:
+                            content.extend(chunk)
                     fres = FullResponse(
                         status=resp.status,
                         headers=resp.headers,
@@ -428,6 +432,19 @@ class ConnectClient:
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
 
+def _time_limit(ctx: RequestContext) -> AbstractAsyncContextManager[Any]:
+    """Limits a wait to the time that remains for the call.
+
+    A stream must not hold a time limit while it yields: when it expired it would
+    cancel whatever the caller is doing between messages instead of the stream.
+    """
+    if (timeout_ms := ctx.timeout_ms) is None:
+        return asyncio_timeout(None)
+    if timeout_ms <= 0:
+        raise TimeoutError
+    return asyncio_timeout(timeout_ms / 1000.0)
+
+
 async def _streaming_request_content(
     msgs: AsyncIterator[Any], codec: Codec, compression: Compression | None
 ) -> AsyncIterator[bytes]:
-- 
2.43.0


From 76f53efb1543dedeb3ee3c4139f4db482bfa72d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 14/54] fix: apply read_max_bytes to GET requests

---
 src/connectrpc/_server_async.py | 6 ++++++
 src/connectrpc/_server_sync.py  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index a353227..408bdfd 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -329,6 +329,12 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         if message:  # Don't decompress empty messages
             message = compression.decompress(message)
 
+        if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
+            raise ConnectError(
+                Code.RESOURCE_EXHAUSTED,
+                f"message is larger than configured max {self._read_max_bytes}",
+            )
+
         # Get the appropriate decoder for the endpoint
         return codec.decode(message, endpoint.method.input)
 
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 27dcda8..f190c4f 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -387,6 +387,12 @@ class ConnectWSGIApplication(ABC):
                     )
                 message = compression.decompress(message)
 
+            if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
+                raise ConnectError(
+                    Code.RESOURCE_EXHAUSTED,
+                    f"message is larger than configured max {self._read_max_bytes}",
+                )
+
             codec_name = params.get("encoding", ("",))[0]
             codec = self._codecs.get(codec_name)
             if not codec:
-- 
2.43.0


From c0ec5c944be3f36e72ebd250b8eedebfe64f45b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 15/54] fix: refuse Connect streams with an unsupported request
 compression

---
 src/connectrpc/_protocol_connect.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 10a431d..6ba97f2 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -147,13 +147,11 @@ class ConnectServerProtocol:
 
     def negotiate_stream_compression(
         self, headers: Headers, compressions: dict[str, Compression]
-    ) -> tuple[Compression, Compression]:
+    ) -> tuple[Compression | None, Compression]:
         req_compression_name = headers.get(
             CONNECT_STREAMING_HEADER_COMPRESSION, "identity"
         )
-        req_compression = (
-            compressions.get(req_compression_name) or IdentityCompression()
-        )
+        req_compression = compressions.get(req_compression_name)
         accept_compression = headers.get(
             CONNECT_STREAMING_HEADER_ACCEPT_COMPRESSION, ""
         )
-- 
2.43.0


From b5f3609de9ecfe94e4b05bc245c063f91e08379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 16/54] fix: send ASGI header names in lower case

---
 src/connectrpc/_server_async.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 408bdfd..95d311e 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -217,7 +217,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             if not codec:
                 raise HTTPException(
                     HTTPStatus.UNSUPPORTED_MEDIA_TYPE,
-                    [("Accept-Post", "application/json, application/proto")],
+                    [("accept-post", "application/json, application/proto")],
                 )
 
             if is_unary and isinstance(protocol, ConnectServerProtocol):
-- 
2.43.0


From e506d380edf084ffd9725b61caa8e152870dbbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 17/54] fix: keep the bytes of messages that are
 percent-encoded in GET requests

---
 src/connectrpc/_server_async.py | 11 ++++++++---
 src/connectrpc/_server_sync.py  |  7 +++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 95d311e..8168a89 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -205,8 +205,13 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             is_unary = isinstance(endpoint, EndpointUnary)
 
             if http_method == "GET":
-                query_string = scope.get("query_string", b"").decode("utf-8")
-                query_params = parse_qs(query_string, keep_blank_values=True)
+                query_string = scope.get("query_string", b"").decode(
+                    "utf-8", "surrogateescape"
+                )
+                # Messages can be arbitrary bytes, not only UTF-8.
+                query_params = parse_qs(
+                    query_string, keep_blank_values=True, errors="surrogateescape"
+                )
                 codec_name = query_params.get("encoding", ("",))[0]
             else:
                 query_params = _UNSET_QUERY_PARAMS
@@ -314,7 +319,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                     Code.INVALID_ARGUMENT, "Invalid base64 encoding"
                 ) from e
         else:
-            message = message.encode("utf-8")
+            message = message.encode("utf-8", "surrogateescape")
 
         # Handle compression
         compression_name = params.get("compression", ["identity"])[0]
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index f190c4f..986ae8e 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -356,7 +356,10 @@ class ConnectWSGIApplication(ABC):
         """Handle GET request with query parameters."""
         try:
             query_string = environ.get("QUERY_STRING", "")
-            params = parse_qs(query_string, keep_blank_values=True)
+            # Messages can be arbitrary bytes, not only UTF-8.
+            params = parse_qs(
+                query_string, keep_blank_values=True, errors="surrogateescape"
+            )
 
             if "message" not in params:
                 raise ConnectError(
@@ -374,7 +377,7 @@ class ConnectWSGIApplication(ABC):
                         Code.INVALID_ARGUMENT, f"Invalid base64 encoding: {e!s}"
                     ) from e
             else:
-                message = message.encode("utf-8")
+                message = message.encode("utf-8", "surrogateescape")
 
             # Handle compression if specified
             if "compression" in params:
-- 
2.43.0


From aaf4892e95deb4dd9d4f91d0ad9a864c7c291bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 18/54] fix: refuse GET requests with invalid base64

---
 src/connectrpc/_server_async.py | 5 ++++-
 src/connectrpc/_server_sync.py  | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 8168a89..c534c3d 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -313,7 +313,10 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
 
         if is_base64:
             try:
-                message = base64.urlsafe_b64decode(message + "===")
+                # Padding is optional. Other characters must not be ignored.
+                message = base64.b64decode(
+                    message + "=" * (-len(message) % 4), altchars=b"-_", validate=True
+                )
             except Exception as e:
                 raise ConnectError(
                     Code.INVALID_ARGUMENT, "Invalid base64 encoding"
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 986ae8e..273129d 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -371,7 +371,12 @@ class ConnectWSGIApplication(ABC):
 
             if "base64" in params and params["base64"][0] == "1":
                 try:
-                    message = base64.urlsafe_b64decode(message + "===")
+                    # Padding is optional. Other characters must not be ignored.
+                    message = base64.b64decode(
+                        message + "=" * (-len(message) % 4),
+                        altchars=b"-_",
+                        validate=True,
+                    )
                 except Exception as e:
                     raise ConnectError(
                         Code.INVALID_ARGUMENT, f"Invalid base64 encoding: {e!s}"
-- 
2.43.0


From fd4f1191fea919d7d1869e09155c168fa4be4c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 19/54] fix: refuse GET requests with an unsupported protocol
 version

---
 src/connectrpc/_server_async.py | 8 ++++++++
 src/connectrpc/_server_sync.py  | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index c534c3d..59981f3 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -301,6 +301,14 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
     ) -> _REQ:
         """Handle GET request with query parameters."""
         # Validation
+        # Like for the header, the version is not required.
+        connect_version = params.get("connect", ("v1",))[0]
+        if connect_version != "v1":
+            raise ConnectError(
+                Code.INVALID_ARGUMENT,
+                f"connect parameter must be 'v1': got '{connect_version}'",
+            )
+
         if "message" not in params:
             raise ConnectError(
                 Code.INVALID_ARGUMENT,
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 273129d..31d81e1 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -361,6 +361,14 @@ class ConnectWSGIApplication(ABC):
                 query_string, keep_blank_values=True, errors="surrogateescape"
             )
 
+            # Like for the header, the version is not required.
+            connect_version = params.get("connect", ("v1",))[0]
+            if connect_version != "v1":
+                raise ConnectError(
+                    Code.INVALID_ARGUMENT,
+                    f"connect parameter must be 'v1': got '{connect_version}'",
+                )
+
             if "message" not in params:
                 raise ConnectError(
                     Code.INVALID_ARGUMENT,
-- 
2.43.0


From f10b25ff5fada8c466907b0c0b7395fff67e61a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 20/54] fix: answer undecodable unary requests with invalid
 argument in ASGI

---
 src/connectrpc/_server_async.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 59981f3..c9e7176 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -343,7 +343,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
 
         # Decompress and decode message
         if message:  # Don't decompress empty messages
-            message = compression.decompress(message)
+            message = _decompress_request(compression, message)
 
         if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
             raise ConnectError(
@@ -352,7 +352,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             )
 
         # Get the appropriate decoder for the endpoint
-        return codec.decode(message, endpoint.method.input)
+        return _decode_request(codec, message, endpoint.method.input)
 
     async def _read_post_request(
         self,
@@ -377,7 +377,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
             )
 
         if req_body:  # Don't decompress empty body
-            req_body = compression.decompress(req_body)
+            req_body = _decompress_request(compression, req_body)
 
         if self._read_max_bytes is not None and len(req_body) > self._read_max_bytes:
             raise ConnectError(
@@ -385,7 +385,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 f"message is larger than configured max {self._read_max_bytes}",
             )
 
-        return codec.decode(req_body, endpoint.method.input)
+        return _decode_request(codec, req_body, endpoint.method.input)
 
     async def _handle_stream(
         self,
@@ -602,6 +602,24 @@ async def _request_stream(
     reader.finish()
 
 
+def _decompress_request(compression: Compression, data: bytes) -> bytes:
+    try:
+        return compression.decompress(data)
+    except Exception as e:
+        raise ConnectError(
+            Code.INVALID_ARGUMENT, f"Failed to decompress request body: {e!s}"
+        ) from e
+
+
+def _decode_request(codec: Codec, data: bytes, request_class: type[_REQ]) -> _REQ:
+    try:
+        return codec.decode(data, request_class)
+    except Exception as e:
+        raise ConnectError(
+            Code.INVALID_ARGUMENT, f"Failed to decode request body: {e!s}"
+        ) from e
+
+
 async def _read_body(receive: ASGIReceiveCallable) -> AsyncIterator[bytes]:
     """Read the body of the request."""
     while True:
-- 
2.43.0


From 0ac22c206f1b6b092a5ebb3628ebd9bf9002314e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 21/54] fix: answer undecodable streaming requests with invalid
 argument

---
 src/connectrpc/_server_async.py  |  3 ++-
 src/connectrpc/_server_shared.py | 16 ++++++++++++++++
 src/connectrpc/_server_sync.py   |  3 ++-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index c9e7176..7af5b4c 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -30,6 +30,7 @@ from ._server_shared import (
     EndpointClientStream,
     EndpointServerStream,
     EndpointUnary,
+    read_requests,
 )
 from .code import Code
 from .errors import ConnectError
@@ -592,7 +593,7 @@ async def _request_stream(
     reader = EnvelopeReader(request_class, codec, compression, read_max_bytes)
     try:
         async for chunk in _read_body(receive):
-            for message in reader.feed(chunk):
+            for message in read_requests(reader, chunk):
                 yield message
                 # Check for cancellation each message. While this seems heavyweight,
                 # conformance tests require it.
diff --git a/src/connectrpc/_server_shared.py b/src/connectrpc/_server_shared.py
index 512c2a2..c7ef452 100644
--- a/src/connectrpc/_server_shared.py
+++ b/src/connectrpc/_server_shared.py
@@ -3,9 +3,13 @@ from __future__ import annotations
 from dataclasses import dataclass
 from typing import TYPE_CHECKING, Generic, TypeVar
 
+from .code import Code
+from .errors import ConnectError
+
 if TYPE_CHECKING:
     from collections.abc import AsyncIterator, Awaitable, Callable, Iterator
 
+    from ._envelope import EnvelopeReader
     from .method import MethodInfo
     from .request import RequestContext
 
@@ -136,3 +140,15 @@ class EndpointServerStreamSync(EndpointSync[REQ, RES]):
 @dataclass(kw_only=True, frozen=True, slots=True)
 class EndpointBidiStreamSync(EndpointSync[REQ, RES]):
     function: Callable[[Iterator[REQ], RequestContext[REQ, RES]], Iterator[RES]]
+
+
+def read_requests(reader: EnvelopeReader[REQ], data: bytes) -> Iterator[REQ]:
+    """Reads request messages, blaming the request for messages that cannot be decoded."""
+    try:
+        yield from reader.feed(data)
+    except ConnectError:
+        raise
+    except Exception as e:
+        raise ConnectError(
+            Code.INVALID_ARGUMENT, f"Failed to decode request message: {e!s}"
+        ) from e
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 31d81e1..aa40fc5 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -34,6 +34,7 @@ from ._server_shared import (
     EndpointClientStreamSync,
     EndpointServerStreamSync,
     EndpointUnarySync,
+    read_requests,
 )
 from .code import Code
 from .errors import ConnectError
@@ -596,7 +597,7 @@ def _request_stream(
 ) -> Iterator[_REQ]:
     reader = EnvelopeReader(request_class, codec, compression, read_max_bytes)
     for chunk in _read_body(environ):
-        yield from reader.feed(chunk)
+        yield from read_requests(reader, chunk)
     reader.finish()
 
 
-- 
2.43.0


From 6c916270206e67756a045661a9609ecc001c99ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 22/54] fix: refuse GET requests for streaming methods

---
 src/connectrpc/_server_async.py | 4 ++++
 src/connectrpc/_server_sync.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 7af5b4c..6726292 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -199,6 +199,10 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 msg = f"ASGI server does not support ASGI trailers extension but protocol for content-type '{content_type}' requires trailers"
                 raise RuntimeError(msg)
 
+            if http_method != "POST" and not isinstance(endpoint, EndpointUnary):
+                # Only unary methods can allow more than POST.
+                raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
+
             ctx = protocol.create_request_context(
                 endpoint.method, http_method, http_scheme, headers, client_address
             )
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index aa40fc5..a6f5855 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -225,6 +225,10 @@ class ConnectWSGIApplication(ABC):
                 if not send_trailers:
                     msg = f"WSGI server does not support WSGI trailers extension but protocol for content-type '{content_type}' requires trailers"
                     raise RuntimeError(msg)
+            if http_method != "POST" and not isinstance(endpoint, EndpointUnarySync):
+                # Only unary methods can allow more than POST.
+                raise HTTPException(HTTPStatus.METHOD_NOT_ALLOWED, [("allow", "POST")])
+
             ctx = protocol.create_request_context(
                 endpoint.method, http_method, http_scheme, headers, client_address
             )
-- 
2.43.0


From e324521b709be118775b04b54a99bc909e2a493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 23/54] fix: do not require optional members of ASGI scopes and
 WSGI environs

---
 src/connectrpc/_server_async.py | 5 +++--
 src/connectrpc/_server_sync.py  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index 6726292..e353ff4 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -179,9 +179,10 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         try:
             path = scope["path"]
             endpoint = endpoints.get(path)
-            if not endpoint and scope["root_path"]:
+            root_path = scope.get("root_path", "")
+            if not endpoint and root_path:
                 # The application was mounted at some root so try stripping the prefix.
-                path = path.removeprefix(scope["root_path"])
+                path = path.removeprefix(root_path)
                 endpoint = endpoints.get(path)
             if not endpoint:
                 raise HTTPException(HTTPStatus.NOT_FOUND, [])
diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index a6f5855..a8a17f4 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -195,11 +195,12 @@ class ConnectWSGIApplication(ABC):
     ) -> Iterable[bytes]:
         ctx: RequestContext | None = None
         try:
-            path = environ["PATH_INFO"]
+            # Variables that would be empty may be missing.
+            path = environ.get("PATH_INFO")
             if not path:
                 path = "/"
             endpoint = self._endpoints.get(path)
-            if not endpoint and environ["SCRIPT_NAME"] == self.path:
+            if not endpoint and environ.get("SCRIPT_NAME") == self.path:
                 # The application was mounted at the service's path so we reconstruct
                 # the full URL.
                 endpoint = self._endpoints.get(self.path + path)
-- 
2.43.0


From d380a723d041afea7cbfa5993bd5a36491cfce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 24/54] fix: accept header values that are not UTF-8 in ASGI

---
 src/connectrpc/_server_async.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index e353ff4..c2ca161 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -664,10 +664,18 @@ async def _yield_single_response(response: _RES) -> AsyncIterator[_RES]:
 def _process_headers(iterable: Iterable[tuple[bytes, bytes]]) -> Headers:
     result = Headers()
     for key, value in iterable:
-        result.add(key.decode(), value.decode())
+        result.add(_decode_header(key), _decode_header(value))
     return result
 
 
+def _decode_header(data: bytes) -> str:
+    try:
+        return data.decode()
+    except UnicodeDecodeError:
+        # HTTP allows any non-ASCII bytes in header values.
+        return data.decode("latin-1")
+
+
 def _add_context_headers(
     headers: list[tuple[bytes, bytes]], ctx: RequestContext
 ) -> None:
-- 
2.43.0


From deb6d0d4d0c58cdcaedb8c1eb0f2c7abb169c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 25/54] fix: answer undecodable compressed GET requests with
 invalid argument in WSGI

---
 src/connectrpc/_server_sync.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index a8a17f4..ae477ad 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -407,7 +407,12 @@ class ConnectWSGIApplication(ABC):
                         Code.UNIMPLEMENTED,
                         f"unknown compression: '{compression_name}': supported encodings are {', '.join(self._compressions.keys())}",
                     )
-                message = compression.decompress(message)
+                try:
+                    message = compression.decompress(message)
+                except Exception as e:
+                    raise ConnectError(
+                        Code.INVALID_ARGUMENT, f"Failed to decompress message: {e!s}"
+                    ) from e
 
             if self._read_max_bytes is not None and len(message) > self._read_max_bytes:
                 raise ConnectError(
-- 
2.43.0


From 3ef60b90dc5d88c50cd5399b041b6f8ef07b2fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 26/54] fix: end the exchange when a single-response call gets
 a second message

---
 src/connectrpc/_client_async.py | 22 ++++++++++++----------
 src/connectrpc/_client_sync.py  | 21 ++++++++++++---------
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 03ae927..2c71cee 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -4,7 +4,7 @@ import asyncio
 import functools
 import sys
 from asyncio import CancelledError, sleep, wait_for
-from contextlib import AsyncExitStack
+from contextlib import AsyncExitStack, aclosing
 from typing import TYPE_CHECKING, Any, Protocol, TypeVar
 from urllib.parse import urlencode
 
@@ -37,7 +37,7 @@ else:
     from ._asyncio_timeout import timeout as asyncio_timeout
 
 if TYPE_CHECKING:
-    from collections.abc import AsyncIterator, Iterable, Mapping
+    from collections.abc import AsyncGenerator, AsyncIterator, Iterable, Mapping
     from contextlib import AbstractAsyncContextManager
     from types import TracebackType
 
@@ -360,7 +360,7 @@ class ConnectClient:
 
     async def _send_request_bidi_stream(
         self, request: AsyncIterator[REQ], ctx: RequestContext[REQ, RES]
-    ) -> AsyncIterator[RES]:
+    ) -> AsyncGenerator[RES, None]:
         request_headers = HTTPHeaders(ctx.request_headers.allitems())
         url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
         reader: EnvelopeReader | None = None
@@ -457,14 +457,16 @@ async def _yield_single_message(message: REQ) -> AsyncIterator[REQ]:
     yield message
 
 
-async def _consume_single_response(stream: AsyncIterator[RES]) -> RES:
+async def _consume_single_response(stream: AsyncGenerator[RES, None]) -> RES:
     res = None
-    async for message in stream:
-        if res is not None:
-            raise ConnectError(
-                Code.UNIMPLEMENTED, "unary response has multiple messages"
-            )
-        res = message
+    # Without a second message the stream has ended, otherwise it is still open.
+    async with aclosing(stream):
+        async for message in stream:
+            if res is not None:
+                raise ConnectError(
+                    Code.UNIMPLEMENTED, "unary response has multiple messages"
+                )
+            res = message
     if res is None:
         raise ConnectError(Code.UNIMPLEMENTED, "unary response has zero messages")
     return res
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 6dcce3c..aec6e7e 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import functools
+from contextlib import closing
 from typing import TYPE_CHECKING, Any, Protocol, TypeVar
 from urllib.parse import urlencode
 
@@ -29,7 +30,7 @@ from .protocol import ProtocolType
 
 if TYPE_CHECKING:
     import sys
-    from collections.abc import Iterable, Iterator, Mapping
+    from collections.abc import Generator, Iterable, Iterator, Mapping
     from types import TracebackType
 
     from ._envelope import EnvelopeReader
@@ -353,7 +354,7 @@ class ConnectClientSync:
 
     def _send_request_bidi_stream(
         self, request: Iterator[REQ], ctx: RequestContext[REQ, RES]
-    ) -> Iterator[RES]:
+    ) -> Generator[RES, None, None]:
         request_headers = HTTPHeaders(ctx.request_headers.allitems())
         url = f"{self._address}/{ctx.method.service_name}/{ctx.method.name}"
         if (timeout_ms := ctx.timeout_ms) is not None:
@@ -449,14 +450,16 @@ def _streaming_request_content(
         yield writer.write(msg)
 
 
-def _consume_single_response(stream: Iterator[RES]) -> RES:
+def _consume_single_response(stream: Generator[RES, None, None]) -> RES:
     res = None
-    for message in stream:
-        if res is not None:
-            raise ConnectError(
-                Code.UNIMPLEMENTED, "unary response has multiple messages"
-            )
-        res = message
+    # Without a second message the stream has ended, otherwise it is still open.
+    with closing(stream):
+        for message in stream:
+            if res is not None:
+                raise ConnectError(
+                    Code.UNIMPLEMENTED, "unary response has multiple messages"
+                )
+            res = message
     if res is None:
         raise ConnectError(Code.UNIMPLEMENTED, "unary response has zero messages")
     return res
-- 
2.43.0


From ca5d32314300e11dcb824a13e1165ddb5ef969b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 27/54] fix: treat an end-of-stream error without fields as an
 error

---
 src/connectrpc/_protocol_connect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol_connect.py b/src/connectrpc/_protocol_connect.py
index 6ba97f2..80e2edb 100644
--- a/src/connectrpc/_protocol_connect.py
+++ b/src/connectrpc/_protocol_connect.py
@@ -327,7 +327,8 @@ class ConnectEnvelopeReader(EnvelopeReader[RES]):
         if metadata:
             handle_response_trailers(metadata)
         error = end_stream_message.get("error")
-        if error:
+        # An error without any fields is an error too.
+        if error is not None:
             # Most likely a bug in the protocol, handling of unknown code is different for unary
             # and streaming.
             raise ConnectWireError.from_dict(error, 500, Code.UNKNOWN).to_exception()
-- 
2.43.0


From ae4a03c7da701282c83ebedb0cbc121ff9e1ee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:58 +0000
Subject: [PATCH 28/54] fix: report a stream reset with malformed trailers as
 an RPC error

---
 src/connectrpc/_client_async.py | 8 +++++++-
 src/connectrpc/_client_sync.py  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 2c71cee..10755f5 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -427,7 +427,13 @@ class ConnectClient:
                 # It is possible for a reset to come with trailers which should
                 # be used.
                 if reader and resp:
-                    reader.handle_response_complete(resp, rst_err)
+                    try:
+                        reader.handle_response_complete(resp, rst_err)
+                    except ConnectError:
+                        raise
+                    except Exception:
+                        # Malformed trailers must not hide the reset.
+                        raise rst_err from e
                 raise rst_err from e
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index aec6e7e..afe768d 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -437,7 +437,13 @@ class ConnectClientSync:
                 # It is possible for a reset to come with trailers which should
                 # be used.
                 if reader and resp:
-                    reader.handle_response_complete(resp, rst_err)
+                    try:
+                        reader.handle_response_complete(resp, rst_err)
+                    except ConnectError:
+                        raise
+                    except Exception:
+                        # Malformed trailers must not hide the reset.
+                        raise rst_err from e
                 raise rst_err from e
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
 
-- 
2.43.0


From 0c9ff5304281a0e7a7ec83a012a05b53cca7efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 29/54] fix: ignore an error message that is not a string

---
 src/connectrpc/_protocol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol.py b/src/connectrpc/_protocol.py
index 6ffc989..89269c2 100644
--- a/src/connectrpc/_protocol.py
+++ b/src/connectrpc/_protocol.py
@@ -121,7 +121,10 @@ class ConnectWireError:
                 code = unexpected_code
         else:
             code = _http_status_code_to_error.get(http_status, Code.UNKNOWN)
-        message = data.get("message", "")
+        message = data.get("message")
+        if not isinstance(message, str):
+            # Ignore a missing or malformed message
+            message = ""
         details: Sequence[ErrorDetail] = ()
         details_json = cast("list[dict[str, str]] | None", data.get("details"))
         if details_json:
-- 
2.43.0


From 3801dc3f8505c37002fd9eca597fbfe0a1c86cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:29 +0000
Subject: [PATCH 30/54] fix: apply interceptors given as an iterator to every
 endpoint

---
 src/connectrpc/_server_async.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index c2ca161..f778c33 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -111,7 +111,8 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
         super().__init__()
         self._service = service
         self._endpoints = endpoints
-        self._interceptors = interceptors
+        # Interceptors are applied to each endpoint, so an iterator can't be kept as is.
+        self._interceptors = list(interceptors)
         self._resolved_endpoints = None
         self._read_max_bytes = read_max_bytes
         self._compressions = resolve_compressions(compressions)
-- 
2.43.0


From 691e1ec0a9c6d06a5b4ac3524bc9776185aa7ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:55 +0000
Subject: [PATCH 31/54] fix: do not end cancelled streams as if they were
 complete

---
 src/connectrpc/_server_async.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index f778c33..f09cd25 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -486,7 +486,9 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 if aclose is not None:
                     await aclose()
         except CancelledError as e:
-            raise ConnectError(Code.CANCELED, "Request was cancelled") from e
+            # Also ends the response, which is not complete, with the error.
+            error = ConnectError(Code.CANCELED, "Request was cancelled")
+            raise error from e
         except Exception as e:
             error = e
         finally:
-- 
2.43.0


From fd9976abebfa89fb9ae1f815274a95ca12bc5d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 32/54] fix: close response streams before ending metadata
 interceptors

---
 src/connectrpc/_interceptor_async.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/connectrpc/_interceptor_async.py b/src/connectrpc/_interceptor_async.py
index 34c8f61..6267c24 100644
--- a/src/connectrpc/_interceptor_async.py
+++ b/src/connectrpc/_interceptor_async.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from contextlib import asynccontextmanager
 from typing import TYPE_CHECKING, Generic, Protocol, TypeVar, runtime_checkable
 
 if TYPE_CHECKING:
@@ -200,8 +201,9 @@ class MetadataInterceptorInvoker(Generic[T]):
         token = await self._delegate.on_start(ctx)
         error: Exception | None = None
         try:
-            async for response in call_next(request, ctx):
-                yield response
+            async with _closing(call_next(request, ctx)) as responses:
+                async for response in responses:
+                    yield response
         except Exception as e:
             error = e
             raise
@@ -217,8 +219,9 @@ class MetadataInterceptorInvoker(Generic[T]):
         token = await self._delegate.on_start(ctx)
         error: Exception | None = None
         try:
-            async for response in call_next(request, ctx):
-                yield response
+            async with _closing(call_next(request, ctx)) as responses:
+                async for response in responses:
+                    yield response
         except Exception as e:
             error = e
             raise
@@ -226,6 +229,20 @@ class MetadataInterceptorInvoker(Generic[T]):
             await self._delegate.on_end(token, ctx, error)
 
 
+@asynccontextmanager
+async def _closing(responses: AsyncIterator[RES]) -> AsyncIterator[AsyncIterator[RES]]:
+    """Closes a stream of responses, which is open still when it is abandoned.
+
+    Otherwise, it would only be closed by garbage collection, after the end of the call.
+    """
+    try:
+        yield responses
+    finally:
+        aclose = getattr(responses, "aclose", None)
+        if aclose is not None:
+            await aclose()
+
+
 def resolve_interceptors(
     interceptors: Iterable[Interceptor],
 ) -> Sequence[
-- 
2.43.0


From 0b621ddf4082566a1aefdb12b2683bbfab5151f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:30 +0000
Subject: [PATCH 33/54] fix: close the stream of the service when a WSGI
 response is closed

---
 src/connectrpc/_server_sync.py | 45 ++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index ae477ad..7d13b48 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -6,7 +6,7 @@ import traceback
 from abc import ABC, abstractmethod
 from dataclasses import replace
 from http import HTTPStatus
-from typing import TYPE_CHECKING, TypeVar
+from typing import TYPE_CHECKING, Any, TypeVar
 from urllib.parse import parse_qs
 
 from . import _server_shared
@@ -42,7 +42,14 @@ from .request import Headers, RequestContext
 
 if TYPE_CHECKING:
     import sys
-    from collections.abc import Callable, Iterable, Iterator, Mapping, Sequence
+    from collections.abc import (
+        Callable,
+        Generator,
+        Iterable,
+        Iterator,
+        Mapping,
+        Sequence,
+    )
     from io import BytesIO
 
     if sys.version_info >= (3, 11):
@@ -517,8 +524,11 @@ class ConnectWSGIApplication(ABC):
             # run at all until the iterator is consumed, meaning start_response wouldn't have
             # been called in time. So we return the response stream as a separate generator
             # function. This means some duplication of error handling.
-            return _response_stream(
-                first_response, environ, response_stream, writer, send_trailers, ctx
+            return _ResponseBody(
+                _response_stream(
+                    first_response, environ, response_stream, writer, send_trailers, ctx
+                ),
+                response_stream,
             )
         except Exception as e:
             # Exception before any response message was returned. An error after the first
@@ -611,6 +621,31 @@ def _request_stream(
     reader.finish()
 
 
+class _ResponseBody:
+    """The body of a streaming response.
+
+    Closing it also closes the stream of the service, even if a server didn't start
+    to iterate, so that the clean-up of the service runs.
+    """
+
+    def __init__(
+        self, body: Generator[bytes, None, None], response_stream: Iterator[Any]
+    ) -> None:
+        self._body = body
+        self._response_stream = response_stream
+
+    def __iter__(self) -> Iterator[bytes]:
+        return self._body
+
+    def close(self) -> None:
+        try:
+            self._body.close()
+        finally:
+            close = getattr(self._response_stream, "close", None)
+            if close is not None:
+                close()
+
+
 def _response_stream(
     first_response: _RES,
     environ: WSGIEnvironment,
@@ -618,7 +653,7 @@ def _response_stream(
     writer: EnvelopeWriter,
     send_trailers: Callable[[list[tuple[str, str]]], None] | None,
     ctx: RequestContext,
-) -> Iterable[bytes]:
+) -> Generator[bytes, None, None]:
     error: Exception | None = None
     try:
         body = writer.write(first_response)
-- 
2.43.0


From c10880369248f0630a8a4e920ea568b0a2091879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 34/54] fix: serve services without methods that are given as a
 generator

---
 src/connectrpc/_server_async.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index f09cd25..b9024be 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -166,7 +166,7 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                         await send({"type": "lifespan.shutdown.complete"})
                         return None
 
-        if not self._resolved_endpoints:
+        if self._resolved_endpoints is None:
             if inspect.isasyncgen(self._service):
                 msg = "ASGI server does not support lifespan but async generator passed for service. Enable lifespan support."
                 raise RuntimeError(msg)
-- 
2.43.0


From 6ed49f8c15c1180d787ac420f59a645f20678b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:27 +0000
Subject: [PATCH 35/54] fix: report services without the expected methods as
 failed start-up

---
 src/connectrpc/_server_async.py | 35 +++++++++++++++++----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/connectrpc/_server_async.py b/src/connectrpc/_server_async.py
index b9024be..6ea1fac 100644
--- a/src/connectrpc/_server_async.py
+++ b/src/connectrpc/_server_async.py
@@ -132,24 +132,25 @@ class ConnectASGIApplication(ABC, Generic[_SVC]):
                 msg = await receive()
                 match msg["type"]:
                     case "lifespan.startup":
-                        # Need to cast since type checking doesn't seem to narrow well with isasyncgen
-                        if inspect.isasyncgen(self._service):
-                            service_iter = cast(
-                                "AsyncGenerator[_SVC, None]", self._service
-                            )
-                            try:
-                                service = await anext(service_iter)
-                            except Exception as e:
-                                await send(
-                                    {
-                                        "type": "lifespan.startup.failed",
-                                        "message": str(e),
-                                    }
+                        try:
+                            # Need to cast since type checking doesn't seem to narrow well with isasyncgen
+                            if inspect.isasyncgen(self._service):
+                                service_iter = cast(
+                                    "AsyncGenerator[_SVC, None]", self._service
                                 )
-                                return None
-                        else:
-                            service = cast("_SVC", self._service)
-                        self._resolved_endpoints = self._resolve_endpoints(service)
+                                service = await anext(service_iter)
+                            else:
+                                service = cast("_SVC", self._service)
+                            self._resolved_endpoints = self._resolve_endpoints(service)
+                        except Exception as e:
+                            if service_iter is not None:
+                                # The server won't ask to shut down.
+                                with contextlib.suppress(Exception):
+                                    await service_iter.aclose()
+                            await send(
+                                {"type": "lifespan.startup.failed", "message": str(e)}
+                            )
+                            return None
                         await send({"type": "lifespan.startup.complete"})
                     case "lifespan.shutdown":
                         if service_iter is not None:
-- 
2.43.0


From 5d14c96c51ac3ebc71578ae08f1d0ced042c470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:44 +0000
Subject: [PATCH 36/54] fix: propagate the span of the client instead of its
 parent

---
 connectrpc-otel/connectrpc_otel/_interceptor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_interceptor.py b/connectrpc-otel/connectrpc_otel/_interceptor.py
index d4908f4..deaa671 100644
--- a/connectrpc-otel/connectrpc_otel/_interceptor.py
+++ b/connectrpc-otel/connectrpc_otel/_interceptor.py
@@ -150,8 +150,6 @@ class OpenTelemetryInterceptor:
         parent_otel_ctx = None
         if self._client:
             span_kind = SpanKind.CLIENT
-            carrier = ctx.request_headers
-            self._propagator.inject(carrier, setter=_DEFAULT_TEXTMAP_SETTER)
         else:
             span_kind = SpanKind.SERVER
             parent_span = get_current_span()
@@ -169,6 +167,11 @@ class OpenTelemetryInterceptor:
         with self._tracer.start_as_current_span(
             span_name, kind=span_kind, attributes=attrs, context=parent_otel_ctx
         ) as span:
+            if self._client:
+                # Within the span, for it to be the parent of the server's.
+                self._propagator.inject(
+                    ctx.request_headers, setter=_DEFAULT_TEXTMAP_SETTER
+                )
             yield span
 
     def _get_error_attributes(
-- 
2.43.0


From 40291704aaf03bebcab9b2b2fdf4e5f3317ad98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:44 +0000
Subject: [PATCH 37/54] fix: do not fail calls with addresses without a numeric
 port when tracing

---
 .../connectrpc_otel/_interceptor.py           | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_interceptor.py b/connectrpc-otel/connectrpc_otel/_interceptor.py
index deaa671..f75ac70 100644
--- a/connectrpc-otel/connectrpc_otel/_interceptor.py
+++ b/connectrpc-otel/connectrpc_otel/_interceptor.py
@@ -109,9 +109,10 @@ class OpenTelemetryInterceptor:
         }
 
         if sa := ctx.server_address:
-            addr, port = sa.rsplit(":", 1)
+            addr, port = _split_address(sa)
             shared_attrs[SERVER_ADDRESS] = addr
-            shared_attrs[SERVER_PORT] = int(port)
+            if port is not None:
+                shared_attrs[SERVER_PORT] = port
 
         cm = self._start_span(ctx, rpc_method, shared_attrs)
         span = cm.__enter__()
@@ -160,9 +161,10 @@ class OpenTelemetryInterceptor:
         attrs: dict[str, AttributeValue] = shared_attrs.copy()
 
         if ca := ctx.client_address:
-            addr, port = ca.rsplit(":", 1)
+            addr, port = _split_address(ca)
             attrs[CLIENT_ADDRESS] = addr
-            attrs[CLIENT_PORT] = int(port)
+            if port is not None:
+                attrs[CLIENT_PORT] = port
 
         with self._tracer.start_as_current_span(
             span_name, kind=span_kind, attributes=attrs, context=parent_otel_ctx
@@ -186,3 +188,14 @@ class OpenTelemetryInterceptor:
             if isinstance(error, ConnectError)
             else "unknown",
         }
+
+
+def _split_address(address: str) -> tuple[str, int | None]:
+    """Splits an address into host and port.
+
+    Addresses come from the peer, i.e. the Host header, so do not need to have a valid port.
+    """
+    host, _, port = address.rpartition(":")
+    if port.isascii() and port.isdecimal() and len(port) <= 5:
+        return host, int(port)
+    return address, None
-- 
2.43.0


From ff52ce6961ef2b5e2ed7241d9a3d3fba129af59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:50 +0000
Subject: [PATCH 38/54] fix: keep interceptors given as an iterator when
 already instrumented

---
 connectrpc-otel/connectrpc_otel/_instrumentor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/connectrpc-otel/connectrpc_otel/_instrumentor.py b/connectrpc-otel/connectrpc_otel/_instrumentor.py
index 7aa7a75..248e529 100644
--- a/connectrpc-otel/connectrpc_otel/_instrumentor.py
+++ b/connectrpc-otel/connectrpc_otel/_instrumentor.py
@@ -85,10 +85,11 @@ class ConnectInstrumentor(BaseInstrumentor):
             "interceptors"
         )
         interceptors = [] if interceptors is None else [*interceptors]
+        # Set even if not adding to them since they may have been an iterator.
+        kwargs["interceptors"] = interceptors
         if any(isinstance(i, OpenTelemetryInterceptor) for i in interceptors):
             return wrapped(*args, **kwargs)
 
-        kwargs["interceptors"] = interceptors
         # OpenTelemetry interceptor should be first so i.e. logging interceptors
         # have trace IDs.
         interceptors.insert(
-- 
2.43.0


From e5fb19b4d444217f99d1aeba5e6102ebc908db38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 39/54] fix: do not instrument modules imported after
 uninstrumenting

---
 .../connectrpc_otel/_instrumentor.py          | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/connectrpc-otel/connectrpc_otel/_instrumentor.py b/connectrpc-otel/connectrpc_otel/_instrumentor.py
index 248e529..04614b9 100644
--- a/connectrpc-otel/connectrpc_otel/_instrumentor.py
+++ b/connectrpc-otel/connectrpc_otel/_instrumentor.py
@@ -23,6 +23,8 @@ R = TypeVar("R")
 
 
 class ConnectInstrumentor(BaseInstrumentor):
+    _instrumentation: object | None = None
+
     def instrumentation_dependencies(self) -> Collection[str]:
         return _instruments
 
@@ -34,10 +36,18 @@ class ConnectInstrumentor(BaseInstrumentor):
             "TracerProvider | None", kwargs.get("tracer_provider")
         )
 
-        register_post_import_hook(self._patch_client, "connectrpc.client")
-        register_post_import_hook(self._patch_server, "connectrpc.server")
+        # Hooks cannot be removed, so when uninstrumented before the import they must
+        # find that they do not apply anymore.
+        self._instrumentation = instrumentation = object()
+        register_post_import_hook(
+            partial(self._patch_client, instrumentation), "connectrpc.client"
+        )
+        register_post_import_hook(
+            partial(self._patch_server, instrumentation), "connectrpc.server"
+        )
 
     def _uninstrument(self, **kwargs: object) -> None:
+        self._instrumentation = None
         # TODO: Remove sys.modules check after
         # https://github.com/open-telemetry/opentelemetry-python-contrib/pull/4321
         if "connectrpc.client" in sys.modules:
@@ -47,7 +57,9 @@ class ConnectInstrumentor(BaseInstrumentor):
             unwrap("connectrpc.server.ConnectASGIApplication", "__init__")
             unwrap("connectrpc.server.ConnectWSGIApplication", "__init__")
 
-    def _patch_client(self, module: ModuleType) -> None:
+    def _patch_client(self, instrumentation: object, module: ModuleType) -> None:
+        if instrumentation is not self._instrumentation:
+            return
         wrap_function_wrapper(
             module, "ConnectClient.__init__", partial(self._init_wrapper, client=True)
         )
@@ -57,7 +69,9 @@ class ConnectInstrumentor(BaseInstrumentor):
             partial(self._init_wrapper, client=True),
         )
 
-    def _patch_server(self, module: ModuleType) -> None:
+    def _patch_server(self, instrumentation: object, module: ModuleType) -> None:
+        if instrumentation is not self._instrumentation:
+            return
         wrap_function_wrapper(
             module,
             "ConnectASGIApplication.__init__",
-- 
2.43.0


From 579303fc80644ba9b75f2db606e3d9db6a2814e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 40/54] fix: report cancelled calls as such to metadata
 interceptors

---
 src/connectrpc/_interceptor_async.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/connectrpc/_interceptor_async.py b/src/connectrpc/_interceptor_async.py
index 6267c24..2f186cc 100644
--- a/src/connectrpc/_interceptor_async.py
+++ b/src/connectrpc/_interceptor_async.py
@@ -1,8 +1,12 @@
 from __future__ import annotations
 
+from asyncio import CancelledError
 from contextlib import asynccontextmanager
 from typing import TYPE_CHECKING, Generic, Protocol, TypeVar, runtime_checkable
 
+from .code import Code
+from .errors import ConnectError
+
 if TYPE_CHECKING:
     from collections.abc import AsyncIterator, Awaitable, Callable, Iterable, Sequence
 
@@ -170,6 +174,9 @@ class MetadataInterceptorInvoker(Generic[T]):
         error: Exception | None = None
         try:
             return await call_next(request, ctx)
+        except CancelledError as e:
+            error = _cancelled(e)
+            raise
         except Exception as e:
             error = e
             raise
@@ -186,6 +193,9 @@ class MetadataInterceptorInvoker(Generic[T]):
         error: Exception | None = None
         try:
             return await call_next(request, ctx)
+        except CancelledError as e:
+            error = _cancelled(e)
+            raise
         except Exception as e:
             error = e
             raise
@@ -204,6 +214,9 @@ class MetadataInterceptorInvoker(Generic[T]):
             async with _closing(call_next(request, ctx)) as responses:
                 async for response in responses:
                     yield response
+        except CancelledError as e:
+            error = _cancelled(e)
+            raise
         except Exception as e:
             error = e
             raise
@@ -222,6 +235,9 @@ class MetadataInterceptorInvoker(Generic[T]):
             async with _closing(call_next(request, ctx)) as responses:
                 async for response in responses:
                     yield response
+        except CancelledError as e:
+            error = _cancelled(e)
+            raise
         except Exception as e:
             error = e
             raise
@@ -229,6 +245,13 @@ class MetadataInterceptorInvoker(Generic[T]):
             await self._delegate.on_end(token, ctx, error)
 
 
+def _cancelled(e: CancelledError) -> ConnectError:
+    """The error of an RPC that was cancelled, which did not complete successfully."""
+    error = ConnectError(Code.CANCELED, "Request was cancelled")
+    error.__cause__ = e
+    return error
+
+
 @asynccontextmanager
 async def _closing(responses: AsyncIterator[RES]) -> AsyncIterator[AsyncIterator[RES]]:
     """Closes a stream of responses, which is open still when it is abandoned.
-- 
2.43.0


From 2f0b7a005f8e133d106a6f4173ceb624f5e7b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 41/54] fix: keep names of generated classes apart from the
 names they use

---
 .../protoc_gen_connectrpc/__init__.py         | 49 +++++++++++--------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index 5b76df1..331480d 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -112,7 +112,9 @@ def _generate_file(f: File, desc: DescFile, options: Options) -> None:
 
 
 def _generate_async_stubs(f: File, service: DescService, options: Options) -> None:
-    service_name = escape_identifier(service.name)
+    service_name = f.ident(_service_local_name(service))
+    application_name = f.ident(f"{service_name.name}ASGIApplication")
+    client_name = f.ident(f"{service_name.name}Client")
     default_server_codecs = (
         "_DEFAULT_CODECS" if options.protobuf == _ProtobufOption.GOOGLE else "None"
     )
@@ -146,8 +148,8 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
     f.print()
     with f.scope(
         "class ",
-        escape_identifier(service.name),
-        "ASGIApplication(",
+        application_name,
+        "(",
         _CONNECT_ASGI_APPLICATION,
         "[",
         service_name,
@@ -178,7 +180,7 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
                 ",",
             )
         with f.scope(") -> None:"):
-            with f.scope("super().__init__("):
+            with f.scope(f.ident("super"), "().__init__("):
                 f.print("service=service,")
                 with f.scope("endpoints=lambda svc: {"):
                     for method in service.methods:
@@ -219,7 +221,7 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
                 f.print("codecs=codecs,")
             f.print(")")
         f.print()
-        f.print("@property")
+        f.print("@", f.ident("property"))
         with f.scope("def path(self) -> str:"):
             with f.doc(
                 "Returns the URL path to mount the application to when serving multiple applications."
@@ -228,7 +230,7 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
             f.print(f'return "/{service.type_name}"')
     f.print()
     f.print()
-    with f.scope("class ", service_name, "Client(", _CONNECT_CLIENT, "):"):
+    with f.scope("class ", client_name, "(", _CONNECT_CLIENT, "):"):
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR, _PYQWEST_CLIENT)
 
@@ -292,11 +294,14 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
 
 
 def _generate_sync_stubs(f: File, service: DescService, options: Options) -> None:
-    service_name = f"{escape_identifier(service.name)}"
+    local_name = _service_local_name(service)
+    service_name = f.ident(f"{local_name}Sync")
+    application_name = f.ident(f"{local_name}WSGIApplication")
+    client_name = f.ident(f"{local_name}ClientSync")
     default_codecs = (
         "_DEFAULT_CODECS" if options.protobuf == _ProtobufOption.GOOGLE else "None"
     )
-    with f.scope("class ", service_name, "Sync(", _PROTOCOL, "):"):
+    with f.scope("class ", service_name, "(", _PROTOCOL, "):"):
         for method in service.methods:
             request_type, response_type = _sync_signature(method, options)
             with f.scope(
@@ -323,16 +328,10 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
                 )
                 f.print()
     f.print()
-    with f.scope(
-        "class ",
-        escape_identifier(service.name),
-        "WSGIApplication(",
-        _CONNECT_WSGI_APPLICATION,
-        "):",
-    ):
+    with f.scope("class ", application_name, "(", _CONNECT_WSGI_APPLICATION, "):"):
         with f.scope("def __init__("):
             f.print("self,")
-            f.print("service: ", service_name, "Sync,")
+            f.print("service: ", service_name, ",")
             f.print("interceptors: ", _ITERABLE, "[", _INTERCEPTOR_SYNC, "] = (),")
             f.print("read_max_bytes: int | None = None,")
             f.print("compressions: ", _ITERABLE, "[", _COMPRESSION, "] | None = None,")
@@ -340,7 +339,7 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
                 "codecs: ", _ITERABLE, "[", _CODEC, "] | None = ", default_codecs, ","
             )
         with f.scope(") -> None:"):
-            with f.scope("super().__init__("):
+            with f.scope(f.ident("super"), "().__init__("):
                 with f.scope("endpoints={"):
                     for method in service.methods:
                         with f.scope(
@@ -382,7 +381,7 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
                 f.print("codecs=codecs,")
             f.print(")")
         f.print()
-        f.print("@property")
+        f.print("@", f.ident("property"))
         with f.scope("def path(self) -> str:"):
             with f.doc(
                 "Returns the URL path to mount the application to when serving multiple applications."
@@ -391,7 +390,7 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
             f.print(f'return "/{service.type_name}"')
     f.print()
     f.print()
-    with f.scope("class ", service_name, "ClientSync(", _CONNECT_CLIENT_SYNC, "):"):
+    with f.scope("class ", client_name, "(", _CONNECT_CLIENT_SYNC, "):"):
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR_SYNC, _PYQWEST_SYNC_CLIENT)
 
@@ -461,7 +460,7 @@ def _print_google_compat_client_init(
         f.print("interceptors: ", _ITERABLE, "[", interceptor_type, "] = (),")
         f.print("http_client: ", http_client_type, " | None = None,")
     with f.scope(") -> None:"):
-        with f.scope("super().__init__("):
+        with f.scope(f.ident("super"), "().__init__("):
             f.print("address=address,")
             f.print("codec=codec,")
             f.print("protocol=protocol,")
@@ -559,6 +558,16 @@ def _client_execute_method(method: DescMethod) -> str:
             return "execute_bidi_stream"
 
 
+# Builtins that generated code uses and a class of the same name would shadow.
+_USED_BUILTINS = ("property", "super")
+
+
+def _service_local_name(service: DescService) -> str:
+    if service.name.rstrip("_") in _USED_BUILTINS:
+        return f"{service.name}_"
+    return escape_identifier(service.name)
+
+
 def _method_local_name(method: DescMethod) -> str:
     return escape_identifier(_pascal_to_snake_case(method.name))
 
-- 
2.43.0


From ddee98bf594ceec5dc4aa61fc3fb3ed4668bd49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 42/54] fix: generate importable code for services without
 methods

---
 protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index 331480d..0d22df0 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -119,6 +119,8 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
         "_DEFAULT_CODECS" if options.protobuf == _ProtobufOption.GOOGLE else "None"
     )
     with f.scope("class ", service_name, "(", _PROTOCOL, "):"):
+        if not service.methods:
+            f.print("pass")
         for method in service.methods:
             def_prefix, request_type, response_type = _async_signature(method, options)
             with f.scope(
@@ -233,6 +235,8 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
     with f.scope("class ", client_name, "(", _CONNECT_CLIENT, "):"):
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR, _PYQWEST_CLIENT)
+        elif not service.methods:
+            f.print("pass")
 
         for method in service.methods:
             def_prefix, request_type, response_type = _async_signature(method, options)
@@ -302,6 +306,8 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
         "_DEFAULT_CODECS" if options.protobuf == _ProtobufOption.GOOGLE else "None"
     )
     with f.scope("class ", service_name, "(", _PROTOCOL, "):"):
+        if not service.methods:
+            f.print("pass")
         for method in service.methods:
             request_type, response_type = _sync_signature(method, options)
             with f.scope(
@@ -393,6 +399,8 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
     with f.scope("class ", client_name, "(", _CONNECT_CLIENT_SYNC, "):"):
         if options.protobuf == _ProtobufOption.GOOGLE:
             _print_google_compat_client_init(f, _INTERCEPTOR_SYNC, _PYQWEST_SYNC_CLIENT)
+        elif not service.methods:
+            f.print("pass")
 
         for method in service.methods:
             request_type, response_type = _sync_signature(method, options)
-- 
2.43.0


From c6f510969c9922617c9c6511234393470488c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 43/54] fix: import google.protobuf messages of files in
 directories from the same directory

---
 protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index 0d22df0..1d6e72b 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -512,7 +512,8 @@ def _message_ident(method: DescMethod, message: DescMessage, options: Options) -
     if message.file != method.parent.file:
         mod = Module(_module_name(message.file.name))
     else:
-        mod = Module(f".{_module_name(message.file.name.split('/')[-1])}")
+        # Leading dot means relative to the root of generated code.
+        mod = Module(f".{_module_name(message.file.name)}")
     return mod.ident(name)
 
 
-- 
2.43.0


From 4f6c4963b611e72e5d894afe8c819227544778f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 44/54] fix: do not override methods of client base classes
 with those of RPCs

---
 .../protoc_gen_connectrpc/__init__.py         | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index 1d6e72b..6233ad2 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -241,7 +241,7 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
         for method in service.methods:
             def_prefix, request_type, response_type = _async_signature(method, options)
 
-            with f.scope(def_prefix, "def ", _method_local_name(method), "("):
+            with f.scope(def_prefix, "def ", _client_method_local_name(method), "("):
                 f.print("self,")
                 f.print("request: ", *request_type, ",")
                 f.print("*,")
@@ -405,7 +405,7 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
         for method in service.methods:
             request_type, response_type = _sync_signature(method, options)
 
-            with f.scope("def ", _method_local_name(method), "("):
+            with f.scope("def ", _client_method_local_name(method), "("):
                 f.print("self,")
                 f.print("request: ", *request_type, ",")
                 f.print("*,")
@@ -581,6 +581,21 @@ def _method_local_name(method: DescMethod) -> str:
     return escape_identifier(_pascal_to_snake_case(method.name))
 
 
+# Methods of the base classes of clients, which methods of RPCs must not override.
+_BASE_CLIENT_METHODS = (
+    "close",
+    "execute_bidi_stream",
+    "execute_client_stream",
+    "execute_server_stream",
+    "execute_unary",
+)
+
+
+def _client_method_local_name(method: DescMethod) -> str:
+    name = _method_local_name(method)
+    return f"{name}_" if name.rstrip("_") in _BASE_CLIENT_METHODS else name
+
+
 def _method_url(desc: DescMethod) -> str:
     return f"/{desc.parent.type_name}/{desc.name}"
 
-- 
2.43.0


From 8815454805229e535073e8bacfc7e670d3180fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 45/54] fix: keep messages apart from parameters of generated
 methods

---
 .../protoc_gen_connectrpc/__init__.py         | 80 +++++++++++++------
 1 file changed, 57 insertions(+), 23 deletions(-)

diff --git a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
index 6233ad2..9ba3637 100644
--- a/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
+++ b/protoc-gen-connectrpc/protoc_gen_connectrpc/__init__.py
@@ -158,9 +158,10 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
         "]):",
     ):
         with f.scope("def __init__("):
-            f.print("self,")
+            f.print(f.ident("self"), ",")
             f.print(
-                "service: ",
+                f.ident("service"),
+                ": ",
                 service_name,
                 " | ",
                 _ASYNC_GENERATOR,
@@ -169,11 +170,21 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
                 "],",
             )
             f.print("*,")
-            f.print("interceptors: ", _ITERABLE, "[", _INTERCEPTOR, "] = (),")
-            f.print("read_max_bytes: int | None = None,")
-            f.print("compressions: ", _ITERABLE, "[", _COMPRESSION, "] | None = None,")
             f.print(
-                "codecs: ",
+                f.ident("interceptors"), ": ", _ITERABLE, "[", _INTERCEPTOR, "] = (),"
+            )
+            f.print(f.ident("read_max_bytes"), ": int | None = None,")
+            f.print(
+                f.ident("compressions"),
+                ": ",
+                _ITERABLE,
+                "[",
+                _COMPRESSION,
+                "] | None = None,",
+            )
+            f.print(
+                f.ident("codecs"),
+                ": ",
                 _ITERABLE,
                 "[",
                 _CODEC,
@@ -184,7 +195,7 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
         with f.scope(") -> None:"):
             with f.scope(f.ident("super"), "().__init__("):
                 f.print("service=service,")
-                with f.scope("endpoints=lambda svc: {"):
+                with f.scope("endpoints=lambda ", f.ident("svc"), ": {"):
                     for method in service.methods:
                         with f.scope(
                             f'"{_method_url(method)}": ',
@@ -242,20 +253,21 @@ def _generate_async_stubs(f: File, service: DescService, options: Options) -> No
             def_prefix, request_type, response_type = _async_signature(method, options)
 
             with f.scope(def_prefix, "def ", _client_method_local_name(method), "("):
-                f.print("self,")
-                f.print("request: ", *request_type, ",")
+                f.print(f.ident("self"), ",")
+                f.print(f.ident("request"), ": ", *request_type, ",")
                 f.print("*,")
                 f.print(
-                    "headers: ",
+                    f.ident("headers"),
+                    ": ",
                     _HEADERS,
                     " | ",
                     _MAPPING,
                     "[str, str]",
                     " | None = None, ",
                 )
-                f.print("timeout_ms: int | None = None,")
+                f.print(f.ident("timeout_ms"), ": int | None = None,")
                 if _supports_get(method):
-                    f.print("use_get: bool = False,")
+                    f.print(f.ident("use_get"), ": bool = False,")
             with f.scope(") -> ", *response_type, ":"):
                 await_return = (
                     "await "
@@ -336,13 +348,34 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
     f.print()
     with f.scope("class ", application_name, "(", _CONNECT_WSGI_APPLICATION, "):"):
         with f.scope("def __init__("):
-            f.print("self,")
-            f.print("service: ", service_name, ",")
-            f.print("interceptors: ", _ITERABLE, "[", _INTERCEPTOR_SYNC, "] = (),")
-            f.print("read_max_bytes: int | None = None,")
-            f.print("compressions: ", _ITERABLE, "[", _COMPRESSION, "] | None = None,")
+            f.print(f.ident("self"), ",")
+            f.print(f.ident("service"), ": ", service_name, ",")
+            f.print(
+                f.ident("interceptors"),
+                ": ",
+                _ITERABLE,
+                "[",
+                _INTERCEPTOR_SYNC,
+                "] = (),",
+            )
+            f.print(f.ident("read_max_bytes"), ": int | None = None,")
             f.print(
-                "codecs: ", _ITERABLE, "[", _CODEC, "] | None = ", default_codecs, ","
+                f.ident("compressions"),
+                ": ",
+                _ITERABLE,
+                "[",
+                _COMPRESSION,
+                "] | None = None,",
+            )
+            f.print(
+                f.ident("codecs"),
+                ": ",
+                _ITERABLE,
+                "[",
+                _CODEC,
+                "] | None = ",
+                default_codecs,
+                ",",
             )
         with f.scope(") -> None:"):
             with f.scope(f.ident("super"), "().__init__("):
@@ -406,20 +439,21 @@ def _generate_sync_stubs(f: File, service: DescService, options: Options) -> Non
             request_type, response_type = _sync_signature(method, options)
 
             with f.scope("def ", _client_method_local_name(method), "("):
-                f.print("self,")
-                f.print("request: ", *request_type, ",")
+                f.print(f.ident("self"), ",")
+                f.print(f.ident("request"), ": ", *request_type, ",")
                 f.print("*,")
                 f.print(
-                    "headers: ",
+                    f.ident("headers"),
+                    ": ",
                     _HEADERS,
                     " | ",
                     _MAPPING,
                     "[str, str]",
                     " | None = None, ",
                 )
-                f.print("timeout_ms: int | None = None,")
+                f.print(f.ident("timeout_ms"), ": int | None = None,")
                 if _supports_get(method):
-                    f.print("use_get: bool = False,")
+                    f.print(f.ident("use_get"), ": bool = False,")
             with f.scope(") -> ", *response_type, ":"):
                 with f.scope("return ", "self.", _client_execute_method(method), "("):
                     f.print("request=request,")
-- 
2.43.0


From 4d3ccda6c31325d0d1fa3c7c2e0581676aa1e20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 46/54] fix: error details that cannot be deserialized have no
 value

---
 src/connectrpc/errors.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/connectrpc/errors.py b/src/connectrpc/errors.py
index 1407d4d..5100085 100644
--- a/src/connectrpc/errors.py
+++ b/src/connectrpc/errors.py
@@ -61,17 +61,22 @@ class ErrorDetail:
         self, desc_or_registry: Registry | DescMessage | type[Message] | None = None
     ) -> Message | None:
         """The details message as a Protobuf message, or None if it cannot be deserialized."""
-        if self._message:
+        if desc_or_registry is None:
             return self._message
-        if not desc_or_registry:
-            return None
         if isinstance(desc_or_registry, Registry):
+            if self._message is not None:
+                return self._message
             desc = desc_or_registry.message(self.type_name)
-            if not desc:
+            if desc is None:
                 return None
         else:
             desc = desc_or_registry
-        return self._any.unpack(desc)
+        try:
+            if self._message is not None:
+                return self._message if self._any.is_type(desc) else None
+            return self._any.unpack(desc)
+        except Exception:
+            return None
 
 
 class ConnectError(Exception):
-- 
2.43.0


From 23a9335485961924e786fe3d65cb09ed727b3269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:28 +0000
Subject: [PATCH 47/54] fix: type names of error details with type URLs of
 other hosts

---
 src/connectrpc/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connectrpc/errors.py b/src/connectrpc/errors.py
index 5100085..9cd3206 100644
--- a/src/connectrpc/errors.py
+++ b/src/connectrpc/errors.py
@@ -38,7 +38,7 @@ class ErrorDetail:
     @property
     def type_name(self) -> str:
         """The fully-qualified name of the details Protobuf message (for example, acme.foo.v1.FooDetail)."""
-        return self._any.type_url.removeprefix("type.googleapis.com/")
+        return self._any.type_url.rpartition("/")[2]
 
     @property
     def message_bytes(self) -> bytes:
-- 
2.43.0


From 6364518d2ca13131c35587535c8bdc4c47ceed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:17 +0000
Subject: [PATCH 48/54] fix: encode Any holding Any as JSON by default

---
 src/connectrpc/_codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connectrpc/_codec.py b/src/connectrpc/_codec.py
index 9556643..9502fe5 100644
--- a/src/connectrpc/_codec.py
+++ b/src/connectrpc/_codec.py
@@ -4,6 +4,7 @@ from typing import Protocol, TypeVar
 
 from protobuf import Message, Registry
 from protobuf.wkt import (
+    any_pb,
     api_pb,
     cpp_features_pb,
     descriptor_pb,
@@ -24,6 +25,7 @@ CODEC_NAME_JSON = "json"
 
 
 DEFAULT_REGISTRY = Registry(
+    any_pb.desc(),
     api_pb.desc(),
     cpp_features_pb.desc(),
     descriptor_pb.desc(),
-- 
2.43.0


From c37a6eea50bc6b29f3b9006a8d632e564cffda96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 49/54] fix: status trailers set by gRPC handlers must not
 override the status

---
 src/connectrpc/_protocol_grpc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/connectrpc/_protocol_grpc.py b/src/connectrpc/_protocol_grpc.py
index d1073be..d8028b2 100644
--- a/src/connectrpc/_protocol_grpc.py
+++ b/src/connectrpc/_protocol_grpc.py
@@ -45,6 +45,8 @@ GRPC_HEADER_TIMEOUT = "grpc-timeout"
 GRPC_HEADER_COMPRESSION = "grpc-encoding"
 GRPC_HEADER_ACCEPT_COMPRESSION = "grpc-accept-encoding"
 
+_STATUS_TRAILERS = ("grpc-status", "grpc-message", "grpc-status-details-bin")
+
 _DEFAULT_GRPC_USER_AGENT = f"grpc-python-connect/{__version__} ({sys.version})"
 
 
@@ -163,7 +165,11 @@ def _lookup_timeout_unit(unit: str) -> float:
 
 class GRPCEnvelopeWriter(EnvelopeWriter):
     def end(self, user_trailers: Headers, error: ConnectWireError | None) -> Headers:
-        trailers = Headers(list(user_trailers.allitems()))
+        # The status is only known here, i.e. trailers copied from another RPC
+        # must not override it.
+        trailers = Headers(
+            [(k, v) for k, v in user_trailers.allitems() if k not in _STATUS_TRAILERS]
+        )
         if error:
             status = _connect_status_to_grpc[error.code]
             trailers["grpc-status"] = status
-- 
2.43.0


From 241d64cb082d15dbe06c5c9af7a108f5a57c655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:32 +0000
Subject: [PATCH 50/54] fix: do not read past CONTENT_LENGTH in WSGI

---
 src/connectrpc/_server_sync.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 7d13b48..9499006 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -142,6 +142,26 @@ def _read_body_with_content_length(
     return b"".join(chunks)
 
 
+class _LimitedInput:
+    """The body of a request with a known length.
+
+    WSGI servers are not required to simulate the end of the body, an application
+    that reads past CONTENT_LENGTH can block or read the next request.
+    """
+
+    def __init__(self, input_stream: BytesIO, content_length: int) -> None:
+        self._input_stream = input_stream
+        self._remaining = content_length
+
+    def read(self, size: int) -> bytes:
+        size = min(size, self._remaining)
+        if size <= 0:
+            return b""
+        data = self._input_stream.read(size)
+        self._remaining -= len(data)
+        return data
+
+
 def _read_body(environ: WSGIEnvironment) -> Iterator[bytes]:
     input_stream: BytesIO = environ["wsgi.input"]
     while True:
@@ -201,6 +221,11 @@ class ConnectWSGIApplication(ABC):
         self, environ: WSGIEnvironment, start_response: StartResponse
     ) -> Iterable[bytes]:
         ctx: RequestContext | None = None
+        content_length = environ.get("CONTENT_LENGTH") or ""
+        if content_length.isdecimal():
+            environ["wsgi.input"] = _LimitedInput(
+                environ["wsgi.input"], int(content_length)
+            )
         try:
             # Variables that would be empty may be missing.
             path = environ.get("PATH_INFO")
-- 
2.43.0


From 6b4601839ce0d259233b3d4a195da254fbd5132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:17 +0000
Subject: [PATCH 51/54] fix: report truncated streaming requests in WSGI

---
 src/connectrpc/_server_sync.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 9499006..3f24948 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -151,14 +151,14 @@ class _LimitedInput:
 
     def __init__(self, input_stream: BytesIO, content_length: int) -> None:
         self._input_stream = input_stream
-        self._remaining = content_length
+        self.remaining = content_length
 
     def read(self, size: int) -> bytes:
-        size = min(size, self._remaining)
+        size = min(size, self.remaining)
         if size <= 0:
             return b""
         data = self._input_stream.read(size)
-        self._remaining -= len(data)
+        self.remaining -= len(data)
         return data
 
 
@@ -644,6 +644,12 @@ def _request_stream(
     for chunk in _read_body(environ):
         yield from read_requests(reader, chunk)
     reader.finish()
+    input_stream = environ["wsgi.input"]
+    if isinstance(input_stream, _LimitedInput) and input_stream.remaining:
+        raise ConnectError(
+            Code.INVALID_ARGUMENT,
+            f"request truncated, {input_stream.remaining} bytes are missing",
+        )
 
 
 class _ResponseBody:
-- 
2.43.0


From 3b02e8fc5891c6f113f664deaa47a65872d6612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:58 +0000
Subject: [PATCH 52/54] fix: stop sending requests when a synchronous call is
 closed

---
 src/connectrpc/_client_sync.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index afe768d..356ea9b 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import functools
 from contextlib import closing
+from threading import Event
 from typing import TYPE_CHECKING, Any, Protocol, TypeVar
 from urllib.parse import urlencode
 
@@ -364,12 +365,13 @@ class ConnectClientSync:
         else:
             timeout_s = None
 
+        ended = Event()
         stream_error: Exception | None = None
         reader: EnvelopeReader | None = None
         resp: SyncResponse | None = None
         try:
             request_data = _streaming_request_content(
-                request, self._codec, self._send_compression
+                request, self._codec, self._send_compression, ended
             )
 
             with self._http_client.stream(
@@ -446,13 +448,18 @@ class ConnectClientSync:
                         raise rst_err from e
                 raise rst_err from e
             raise ConnectError(Code.UNAVAILABLE, str(e)) from e
+        finally:
+            ended.set()
 
 
 def _streaming_request_content(
-    msgs: Iterator[Any], codec: Codec, compression: Compression | None
+    msgs: Iterator[Any], codec: Codec, compression: Compression | None, ended: Event
 ) -> Iterator[bytes]:
     writer = ConnectEnvelopeWriter(codec, compression)
     for msg in msgs:
+        if ended.is_set():
+            # Not a normal end of the requests.
+            raise ConnectError(Code.CANCELED, "Call ended")
         yield writer.write(msg)
 
 
-- 
2.43.0


From 1988fd01fa85b627b4cb763d3d9b0fb541e4a447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 53/54] fix: do not wait for the body of requests without one
 in WSGI

---
 src/connectrpc/_server_sync.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/connectrpc/_server_sync.py b/src/connectrpc/_server_sync.py
index 3f24948..b8d15c6 100644
--- a/src/connectrpc/_server_sync.py
+++ b/src/connectrpc/_server_sync.py
@@ -753,6 +753,9 @@ def _apply_interceptors(
 
 
 def _drain_request_body(environ: WSGIEnvironment) -> None:
+    if not environ.get("CONTENT_LENGTH") and "HTTP_TRANSFER_ENCODING" not in environ:
+        # There is no body. Servers don't have to signal its end, so reading could block.
+        return
     if environ.get("SERVER_PROTOCOL", "").startswith("HTTP/1"):
         # In HTTP/1, the request body should be drained before returning. Generally it's
         # best for the application server to handle this, but gunicorn is a famous
-- 
2.43.0


From 765c726f167a01fed230f3e2bbe74e41f34be712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:55 +0000
Subject: [PATCH 54/54] fix: keep response headers named trailer-* of streaming
 and gRPC calls as headers

---
 src/connectrpc/_client_async.py      | 4 ++--
 src/connectrpc/_client_sync.py       | 4 ++--
 src/connectrpc/_response_metadata.py | 8 +++++++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/connectrpc/_client_async.py b/src/connectrpc/_client_async.py
index 10755f5..6555a73 100644
--- a/src/connectrpc/_client_async.py
+++ b/src/connectrpc/_client_async.py
@@ -323,7 +323,7 @@ class ConnectClient:
             self._protocol.handle_response_compression(
                 resp.headers, self._response_compressions, stream=False
             )
-            handle_response_headers(resp.headers)
+            handle_response_headers(resp.headers, stream=False)
 
             if resp.status == 200:
                 if (
@@ -377,7 +377,7 @@ class ConnectClient:
                             "POST", url, headers=request_headers, content=request_data
                         )
                     )
-                handle_response_headers(resp.headers)
+                handle_response_headers(resp.headers, stream=True)
                 if resp.status == 200:
                     self._protocol.validate_stream_response(
                         self._codec.name(), resp.headers.get("content-type", "")
diff --git a/src/connectrpc/_client_sync.py b/src/connectrpc/_client_sync.py
index 356ea9b..24a545f 100644
--- a/src/connectrpc/_client_sync.py
+++ b/src/connectrpc/_client_sync.py
@@ -322,7 +322,7 @@ class ConnectClientSync:
             self._protocol.handle_response_compression(
                 resp.headers, self._response_compressions, stream=False
             )
-            handle_response_headers(resp.headers)
+            handle_response_headers(resp.headers, stream=False)
 
             if resp.status == 200:
                 if (
@@ -381,7 +381,7 @@ class ConnectClientSync:
                 content=request_data,
                 timeout=timeout_s,
             ) as resp:
-                handle_response_headers(resp.headers)
+                handle_response_headers(resp.headers, stream=True)
 
                 if resp.status == 200:
                     self._protocol.validate_stream_response(
diff --git a/src/connectrpc/_response_metadata.py b/src/connectrpc/_response_metadata.py
index 56fc099..073023f 100644
--- a/src/connectrpc/_response_metadata.py
+++ b/src/connectrpc/_response_metadata.py
@@ -16,11 +16,17 @@ if TYPE_CHECKING:
 _current_response = ContextVar["ResponseMetadata"]("connectrpc_current_response")
 
 
-def handle_response_headers(headers: HTTPHeaders) -> None:
+def handle_response_headers(headers: HTTPHeaders, *, stream: bool) -> None:
     response = _current_response.get(None)
     if not response:
         return
 
+    if stream:
+        # Only unary Connect responses have trailers among the headers.
+        if stream_headers := Headers(list(headers.items())):
+            response._headers = stream_headers  # noqa: SLF001
+        return
+
     response_headers: Headers = Headers()
     response_trailers: Headers = Headers()
     for key, value in headers.items():
-- 
2.43.0

