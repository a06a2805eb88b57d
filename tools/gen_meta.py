"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/connectrpc/"
O = "connectrpc-otel/connectrpc_otel/"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, level="exploration", technique=None, state=None):
    PROPS.append(
        dict(
            id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
            mech=mech, observe=observe, note=note, level=level, technique=technique, state=state,
        )
    )


SRV = [S + "_server_async.py", S + "_server_sync.py"]
CLI = [S + "_client_async.py", S + "_client_sync.py"]

prop(
    "P01", "RPCs deliver exactly the sent messages, in order, in both directions",
    "For every protocol (Connect, gRPC, gRPC-Web), message encoding, compression setting and method kind, a successful call hands the handler exactly the request messages the caller sent, in order and with the same field values, and hands the caller exactly the response messages the handler produced, in order. The handler runs exactly once per call. This holds for the async and the sync client against the ASGI and the WSGI server, and when either side uses google.protobuf messages instead of protobuf-py ones.",
    ["inputs", "configurations"],
    "all message values and sequences x protocols x codecs x request/response compressions x method kinds x async/sync pairings x protobuf runtimes x body chunkings",
    "Existing tests call one tiny message shape over a handful of configurations; the product of protocol, codec, compression, kind, flavour, runtime and message content is far larger than any list of examples.",
    [*CLI, *SRV, S + "_envelope.py", S + "_codec.py", S + "compat/__init__.py"],
    [("envelope framing", S + "_envelope.py"), ("unary and streaming handling", S + "_server_async.py"), ("codecs", S + "_codec.py")],
    ["messages seen by the handler", "messages or error seen by the caller"],
    "Generated calls through real clients and real applications joined in process; the oracle is the plain-data messages, normalised through google.protobuf. Part of the calls go over loopback sockets (hypercorn, werkzeug).",
    technique="property-based end-to-end round trip (Hypothesis)",
)
prop(
    "P02", "Results do not depend on how the transport cuts the bytes",
    "The outcome of a call - messages, error, metadata and the exact bytes answered - depends only on the bytes of the request and response bodies, never on how the transport splits them into chunks, including empty chunks, one-byte chunks and several messages in a chunk.",
    ["inputs", "schedules"],
    "all conforming and corrupted request/response bodies x all ways of cutting them into chunks, on both clients and both servers",
    "Unit tests feed whole bodies or the chunking of one HTTP stack; a framing bug shows only when a boundary falls at one particular byte.",
    [S + "_envelope.py", *CLI, *SRV],
    [("incremental envelope parsing", S + "_envelope.py"), ("body readers", S + "_server_sync.py"), ("body readers", S + "_server_async.py")],
    ["handler-visible messages", "response bytes", "caller-visible messages and errors"],
    "Metamorphic: the same bytes are delivered whole and under generated cuts, including cuts inside every prefix, and everything observable must be equal.",
    technique="metamorphic property-based testing over chunkings",
)
prop(
    "P03", "An incomplete message stream is never mistaken for a complete one",
    "If a request or response body ends before it is complete - in the middle of a message, before the end-of-stream marker or status trailers of a response, inside a compressed payload, or before the announced content length - then the receiving side reports an error, and every message it did deliver is one of those sent, in order. A server handler consuming a cut-off request stream never sees a normal end of stream.",
    ["inputs", "crash_points"],
    "every conforming body x every proper prefix of it (each byte offset), for each protocol, kind and side",
    "Tests end bodies at message boundaries; the property quantifies over every cut position.",
    [S + "_envelope.py", S + "_protocol_connect.py", S + "_protocol_grpc.py", *CLI, *SRV, S + "compression/zstd.py"],
    [("end-of-stream handling", S + "_protocol_connect.py"), ("status trailers", S + "_protocol_grpc.py"), ("content-length check", S + "_server_sync.py")],
    ["caller-visible outcome", "handler-visible request stream", "response error"],
    "For each generated conforming body every prefix (or, for big bodies, all boundary-adjacent ones plus a sample) is delivered and must produce an error; delivered messages must be a prefix of the sent ones.",
    level="fault_enumeration",
    technique="property-based testing with exhaustive truncation points per generated body",
)
prop(
    "P04", "Errors raised by a handler reach the caller intact",
    "An RPC error raised by a handler - before, between or after responses - is raised by the client with the same code, the same message and the same details (type names and bytes), for every protocol, method kind and client/server flavour. Any other exception is reported to the caller as code unknown carrying the exception's text. Responses sent before the error are still delivered first.",
    ["inputs", "configurations"],
    "all codes x arbitrary Unicode messages x arbitrary detail lists x exception types x position of the failure x protocols x kinds x flavours",
    "Tests use a few ASCII messages and one detail; encoding of messages and details must survive arbitrary text and binary values.",
    [S + "_protocol.py", S + "_protocol_connect.py", S + "_protocol_grpc.py", S + "errors.py", *SRV, *CLI],
    [("error to wire", S + "_protocol.py"), ("grpc status trailers", S + "_protocol_grpc.py"), ("stream end errors", S + "_protocol_connect.py")],
    ["exception raised by the client"],
    "Generated errors through real client/server pairs; the caller's exception is compared with the handler's. WSGI/ASGI loopbacks, and loopback sockets in one part.",
    technique="property-based end-to-end round trip of errors",
)
prop(
    "P05", "Server responses follow the wire protocols exactly",
    "Whatever handlers return, raise or set as metadata, the server's response is one a strict independent peer accepts: correct HTTP status and content type, well-formed envelopes, an encoding the client accepted, exactly one end-of-stream message or status-trailer block placed last, error bodies and trailers in the specified format. The server also obeys the ASGI/WSGI contract (start before body, trailers after body, nothing afterwards, legal header types).",
    ["inputs", "configurations"],
    "all conforming requests (protocol, codec, encodings offered, method kind) x handler behaviours (responses, errors, metadata)",
    "End-to-end tests use the library's own client, which shares its tolerances and mistakes; wire conformance needs an independent decoder over many behaviours.",
    [*SRV, S + "_protocol_connect.py", S + "_protocol_grpc.py", S + "_protocol.py"],
    [("response framing", S + "_server_async.py"), ("response framing", S + "_server_sync.py"), ("end of stream", S + "_protocol_connect.py"), ("trailers", S + "_protocol_grpc.py")],
    ["ASGI messages sent", "WSGI start_response and body", "trailers"],
    "Responses to generated requests are decoded by an independently written strict codec and compared with the scripted handler behaviour.",
    technique="property-based testing against an independent reference decoder",
)
prop(
    "P06", "Client requests follow the wire protocols exactly",
    "Whatever messages, headers, timeout, encoding and compression the caller configures, the client sends a request a strict independent server accepts: right URL and method, protocol headers with the configured values, correctly framed and compressed payloads decoding to exactly the given messages, and a GET query that decodes to the same message. Caller-supplied headers are sent unchanged and the caller's own header object is not modified.",
    ["inputs", "configurations"],
    "all client configurations x method kinds x messages x caller headers x timeouts",
    "Tests check a few requests through the library's own server; each header and framing rule must hold for all configurations.",
    [*CLI, S + "_client_shared.py", S + "_protocol_connect.py", S + "_protocol_grpc.py"],
    [("request headers", S + "_protocol_connect.py"), ("request headers", S + "_protocol_grpc.py"), ("GET parameters", S + "_client_shared.py")],
    ["HTTP request handed to the transport"],
    "Requests captured at the transport are decoded by an independently written strict codec.",
    technique="property-based testing against an independent reference decoder",
)
prop(
    "P07", "Clients map every possible HTTP response to the specified outcome",
    "For any response - valid, protocol-violating, wrong content type, non-200, malformed or arbitrary bytes, missing or contradictory status, transport failure or stream reset - a call either yields exactly the messages and success the protocol specifies or raises an RPC error; no other exception type ever escapes. When the response carries a protocol-level error, an HTTP error status or a stream reset, the error's code is the one the protocol documents for it.",
    ["inputs", "fault_sequences"],
    "all HTTP responses (status, headers, body, trailers, mid-stream failures) x protocols x kinds x both clients",
    "Tests sample some malformed responses; the space of status x content-type x body x trailer x fault combinations needs a model and a generator.",
    [*CLI, S + "_client_shared.py", S + "_protocol.py", S + "_protocol_connect.py", S + "_protocol_grpc.py", S + "_envelope.py"],
    [("response validation", S + "_protocol_connect.py"), ("status mapping", S + "_protocol.py"), ("trailer handling", S + "_protocol_grpc.py"), ("reset mapping", S + "_client_shared.py")],
    ["messages and exception seen by the caller"],
    "Reference model of what a conforming client must conclude; where the specifications leave the code open only 'an RPC error' is demanded.",
    technique="grammar-based fuzzing of responses against a reference model",
)
prop(
    "P08", "Servers answer every request, however malformed, without misbehaving",
    "Any HTTP request - arbitrary method, path, headers, query and body bytes - gets exactly one well-formed response from the server; the handler runs only if a request message could be decoded as the protocol demands, and never with a message other than the one the bytes encode. Malformed input is answered with an error - an HTTP status or one of the protocol in use - that blames the request (never success), without the application raising, or reading more of a request body than was announced.",
    ["inputs"],
    "all HTTP requests, structured mutations of conforming ones and unstructured ones, on both servers",
    "Example-based tests cover a few malformed requests; robustness quantifies over all of them.",
    [*SRV, S + "_envelope.py", S + "_protocol_server.py", S + "_protocol_connect.py", S + "_protocol_grpc.py"],
    [("request parsing", S + "_server_async.py"), ("request parsing", S + "_server_sync.py"), ("error responses", S + "_protocol.py")],
    ["HTTP response", "handler invocations", "exceptions leaving the application"],
    "Mutation- and grammar-based requests; oracle is a reference classification of the request (decodable or not) plus interface validity.",
    technique="structure-aware fuzzing of requests against a reference classifier",
)
prop(
    "P09", "Message size limits are enforced exactly",
    "With a read limit of N bytes configured on a server or client, a received message of at most N bytes (measured after decompression) is accepted and one of more than N bytes is rejected with resource_exhausted, whatever the protocol, encoding, compression, HTTP method and position in the stream. Messages before the oversized one are still delivered, and a message over the limit never reaches the handler or caller.",
    ["inputs", "configurations"],
    "all limits x message sizes around them x compression ratios x protocols x kinds x positions x GET/POST x both sides",
    "Tests use one far-over-the-limit message; the boundary, compressed payloads, GET and later stream positions are not exercised.",
    [S + "_envelope.py", *SRV, *CLI],
    [("stream limit", S + "_envelope.py"), ("unary limit", S + "_server_async.py"), ("unary limit", S + "_server_sync.py"), ("client limit", S + "_client_async.py")],
    ["handler-visible messages", "caller-visible outcome"],
    "Sizes are generated around the limit on both sides of the boundary; the oracle is the arithmetic comparison.",
    technique="property-based boundary testing",
)
prop(
    "P10", "Compression is negotiated correctly and never corrupts data",
    "A server only uses a response encoding that the client offered and the server supports, and otherwise sends the response uncompressed; the client announces exactly its configured encodings, and each side labels what it sends truthfully. Payloads in any supported encoding, however the compressor framed them, decode to the original bytes, and corrupt, truncated, unlabelled or unsupported compressed payloads are rejected with an error, never delivered as data.",
    ["inputs", "configurations"],
    "all payloads x encodings x compressor parameters and framings x offered/supported sets x corruptions x protocols x both sides",
    "Tests compress a couple of messages with the default; negotiation and decoder robustness quantify over all offers and byte strings.",
    [S + "_compression.py", S + "compression/gzip.py", S + "compression/brotli.py", S + "compression/zstd.py", S + "_envelope.py", S + "_protocol_connect.py", S + "_protocol_grpc.py", *SRV],
    [("negotiation", S + "_compression.py"), ("algorithms", S + "compression/"), ("per-message compression flag", S + "_envelope.py")],
    ["response encoding headers and flags", "decoded payloads", "errors"],
    "Reference negotiation model and independent (de)compressors used in strict mode.",
    technique="property-based testing against reference codecs and a negotiation model",
)
prop(
    "P11", "Headers and trailers travel unchanged between caller and handler",
    "Request headers given by the caller are visible to the handler, and response headers and trailers set by the handler are visible to the caller, with all values of repeated names in order, for every protocol and kind and for both successful and failed calls. A response-metadata block observes the metadata of the calls made inside it only - not of calls outside it, in nested blocks, or in other concurrent tasks.",
    ["inputs", "histories", "schedules"],
    "all header/trailer multisets x protocols x kinds x outcomes x nestings and interleavings of metadata blocks",
    "Tests set one or two headers on a few calls and never interleave metadata scopes.",
    [S + "_response_metadata.py", S + "_headers.py", S + "request.py", *CLI, *SRV],
    [("response metadata context", S + "_response_metadata.py"), ("context headers", S + "_server_async.py"), ("trailers", S + "_protocol_grpc.py")],
    ["handler-visible headers", "caller-visible response metadata"],
    "Multiset-and-order comparison end to end; scoping is checked with generated programs of nested and concurrent blocks.",
    technique="property-based end-to-end testing plus stateful scope programs",
)
prop(
    "P12", "The header container behaves as a case-insensitive multimap",
    "After any sequence of operations, the header container agrees with a simple model: names are case-insensitive, setting replaces all values of a name, adding appends, deleting removes all, single-value views show the first value, the all-items view shows every value, and construction from mappings, pairs or other header objects preserves contents. Views, lengths, membership, equality of copies and printing never fail or disagree with each other.",
    ["histories", "inputs"],
    "all operation sequences over all names and values",
    "Unit tests check a few operations in isolation; container invariants are about sequences.",
    [S + "_headers.py"],
    [("header storage with extra values", S + "_headers.py")],
    ["public container operations"],
    "Model-based: after each generated operation every public view is compared with an independent list-of-pairs model.",
    technique="stateful model-based testing",
)
prop(
    "P13", "Requests are routed and admitted exactly as documented",
    "A request reaches a handler exactly when its path names one of the service's methods (possibly under the mount prefix), its HTTP method is allowed for that method, its content type names a protocol and codec the server supports and, for Connect, its protocol version is supported; it then reaches exactly that method's handler. All other requests are refused without running any handler, with 404 for an unknown path, else 405 (listing the allowed methods) for a wrong method, else 415 or the protocol's own error.",
    ["inputs", "configurations"],
    "all paths, mount prefixes, HTTP methods, content types (case, parameters, unknown codecs) and protocol versions x registered services x idempotency levels x both servers",
    "Tests probe a few bad paths and methods; the decision table has many more cells and near-miss strings.",
    [*SRV, S + "_protocol_server.py", S + "_protocol_connect.py", S + "_protocol_grpc.py"],
    [("path lookup", S + "_server_async.py"), ("protocol negotiation", S + "_protocol_server.py"), ("method admission", S + "_protocol_connect.py")],
    ["HTTP status and headers", "which handler ran"],
    "Reference routing/admission model; generated near-misses of valid requests.",
    technique="property-based testing against a reference routing model",
)
prop(
    "P14", "A GET call is equivalent to the POST call it stands for",
    "For every side-effect-free unary method, a call sent as a Connect GET - by the library's client or by any conforming peer - makes the handler see the same message and the caller see the same result, error and metadata as the POST call with the same content, whatever the codec, compression, base64 form, parameter order and percent-encoding. A GET whose parameters are missing or malformed is refused without running the handler.",
    ["inputs", "configurations"],
    "all messages x codecs x compressions x query encodings x parameter orders x both servers and clients",
    "Tests issue one GET; equivalence quantifies over contents and encodings.",
    [*SRV, S + "_client_shared.py", *CLI],
    [("GET decoding", S + "_server_async.py"), ("GET decoding", S + "_server_sync.py"), ("GET encoding", S + "_client_shared.py")],
    ["handler-visible request", "HTTP response", "caller-visible result"],
    "Metamorphic GET/POST comparison with independently built queries.",
    technique="metamorphic property-based testing (GET vs POST)",
)
prop(
    "P15", "Deadlines are propagated faithfully and enforced",
    "A call's timeout (per-call, else the client default) is sent in the protocol's timeout header in valid form and never as a longer time than requested, and the handler observes a remaining time that matches it and decreases as time passes; without a timeout it observes none. When the time runs out the async client fails the call with deadline_exceeded at that time whatever the server does, and never before; malformed timeout headers are refused.",
    ["inputs", "schedules"],
    "all timeouts and header strings x protocols x kinds x server delays at any point (virtual time)",
    "Tests use a couple of real-time sleeps; unit conversion and expiry at each suspension point quantify over values and schedules.",
    [S + "_protocol_grpc.py", S + "_protocol_connect.py", S + "request.py", *CLI],
    [("timeout header conversion", S + "_protocol_grpc.py"), ("timeout parsing", S + "_protocol_connect.py"), ("remaining time", S + "request.py"), ("client timeout", S + "_client_async.py")],
    ["timeout headers", "remaining time seen by handlers", "caller-visible outcome and elapsed virtual time"],
    "Virtual clock shared by library and harness, so durations are exact; expiry is generated before, between and after every suspension point.",
    technique="property-based testing under virtual time with a reference conversion",
)
prop(
    "P16", "Cancelled or abandoned calls are cleaned up promptly",
    "When a client disconnects, a caller cancels, abandons or closes a response stream, or an ASGI/WSGI server closes the response early, the handler's clean-up code runs before the application call finishes (or on close), the application finishes without hanging, and no background task is left running. Request and response iterators are not consumed further than needed after that point, and other calls are unaffected.",
    ["schedules", "fault_sequences"],
    "all points of disconnection/cancellation/close x kinds x protocols x both flavours",
    "Tests disconnect at one point of a server stream; clean-up must hold at every suspension point.",
    [*SRV, *CLI, S + "_interceptor_async.py"],
    [("disconnect monitor and stream close", S + "_server_async.py"), ("response generator", S + "_server_sync.py"), ("client stream context", S + "_client_async.py")],
    ["handler finally-blocks", "pending tasks", "termination of the application call"],
    "Deterministic virtual-time event loop; the cut point is generated over all steps of the exchange, leaked tasks and unhandled errors are counted.",
    technique="property-based schedule and fault exploration on a deterministic event loop",
)
prop(
    "P17", "Interceptors wrap every call exactly once, in order",
    "For any list of interceptors on a client or server, each interceptor that applies to a method's kind wraps each call to it exactly once, first-listed outermost, on every endpoint; interceptors may replace messages, contexts, responses and errors, short-circuit, and the result is what composing them around the call would give. Metadata interceptors see start before and end after the call exactly once each, with the call's error if any, and the value start returned.",
    ["inputs", "configurations"],
    "all interceptor lists (kinds, behaviours, order, iterable type) x method kinds x outcomes x both flavours x both sides",
    "Tests use one or two interceptors in one order; composition must hold for any list, iterable and outcome.",
    [S + "_interceptor_async.py", S + "_interceptor_sync.py", *SRV, *CLI],
    [("interceptor application", S + "_server_async.py"), ("interceptor application", S + "_server_sync.py"), ("client chain", S + "_client_async.py"), ("metadata adapter", S + "_interceptor_async.py")],
    ["trace of interceptor events", "messages seen at each layer"],
    "A reference composition of the same interceptor programs gives the expected event trace.",
    technique="property-based testing against reference function composition",
)
prop(
    "P18", "Service start-up and shut-down follow the server lifecycle",
    "With a service given as an async generator, the generator's set-up runs exactly once at lifespan start-up before any request is served, every request uses the yielded service, and its clean-up runs exactly once at shut-down; failures in either are reported to the server as start-up or shut-down failures. With a plain service object, requests work with or without lifespan events, and a generator service without lifespan support is refused rather than served.",
    ["histories", "fault_sequences"],
    "all sequences of lifespan events and requests x service forms x failures in set-up or clean-up",
    "Tests run one start-request-stop sequence; lifecycle is about all histories.",
    [S + "_server_async.py"],
    [("lifespan handling", S + "_server_async.py")],
    ["lifespan messages sent", "service set-up/clean-up counts", "request outcomes"],
    "Generated histories of lifespan and request events against a small state model.",
    technique="stateful model-based testing of event histories",
)
prop(
    "P19", "Concurrent calls never affect each other",
    "Any number of calls sharing one client, one application, one codec or compression instance and one service, interleaved in any order, each observe exactly the messages, headers, trailers, errors and metadata they would observe if run alone.",
    ["schedules", "inputs"],
    "all sets of concurrent calls x all interleavings (async tasks, interleaved sync iterators, threads)",
    "Tests run calls one at a time; isolation quantifies over interleavings.",
    [*CLI, *SRV, S + "_envelope.py", S + "_compression.py", S + "_protocol_grpc.py"],
    [("per-call context and readers", S + "_client_async.py"), ("per-request state", S + "_server_async.py"), ("per-request state", S + "_server_sync.py")],
    ["per-call outcome compared with the solo outcome"],
    "Seeded interleavings on a deterministic loop; sync calls are interleaved by stepping iterators and with real threads in a smaller part.",
    technique="metamorphic schedule exploration (concurrent vs solo)",
)
prop(
    "P20", "Tracing reports each call once, truthfully and without interfering",
    "With the OpenTelemetry interceptor installed, each call produces exactly one span and one duration measurement on that side, carrying the method, peer addresses and the status of the call's true outcome, and the server's span belongs to the trace propagated by the caller with the client's span as its parent. Instrumentation never changes a call's result or makes it fail, whatever the address forms, and instrumenting and uninstrumenting restores the original behaviour.",
    ["inputs", "configurations", "histories"],
    "all method kinds x outcomes x addresses x propagation contexts x flavours x instrument/uninstrument sequences",
    "Tests cover success and one error with well-formed addresses in a shared process context.",
    [O + "_interceptor.py", O + "_instrumentor.py"],
    [("span and metric recording", O + "_interceptor.py"), ("instrumentation", O + "_instrumentor.py")],
    ["exported spans and metrics", "call result"],
    "In-memory exporters; client and server run in isolated contexts as in separate processes.",
    technique="property-based testing with in-memory exporters",
)
prop(
    "P21", "Generated code exposes every RPC of a service correctly",
    "For every valid proto file, the generator emits importable code in which each service has async and sync clients, service interfaces and applications whose methods call and serve exactly the RPC of that name, with the declared kind, message types, path and idempotency level, under the generator's options. A call through generated client and application reaches the matching service method, and unimplemented methods answer unimplemented.",
    ["programs", "inputs"],
    "all service definitions (names, packages, imports, streaming kinds, idempotency options, nested messages, keyword-like names) x generator options",
    "Golden-file tests pin one example; generation quantifies over all descriptors.",
    ["protoc-gen-connectrpc/protoc_gen_connectrpc"],
    [("generator", "protoc-gen-connectrpc/protoc_gen_connectrpc")],
    ["generated source, imported and called"],
    "Random descriptor sets are compiled by the plugin, imported and exercised over loopbacks.",
    technique="property-based testing of generated programs",
)
prop(
    "P22", "Handlers and interceptors see truthful call information",
    "The request context given to handlers and interceptors reports the RPC being called, the HTTP method, the server address as host:port (default port by scheme when none was given, IPv6 included) on both sides, and on the server the peer's address as reported by the HTTP server, or nothing when unknown.",
    ["inputs", "configurations"],
    "all URLs and Host headers (names, IPv4, IPv6, ports, schemes) x peer addresses x protocols x kinds x flavours",
    "Tests use one host; address normalisation quantifies over URL and Host forms.",
    [S + "_protocol.py", S + "request.py", *SRV],
    [("address normalisation", S + "_protocol.py"), ("peer address", S + "_server_async.py")],
    ["request context properties"],
    "Reference address model built from the generated components.",
    technique="property-based testing against a reference address model",
)
prop(
    "P23", "Codecs and error details round-trip and interoperate",
    "Every codec decodes what it encodes to an equal message and interoperates byte-for-byte-meaningfully with an independent protobuf implementation in both directions, for binary and JSON and for both supported message runtimes; undecodable bytes raise rather than produce a message. Error details unpack to the original message by type, descriptor or registry, and expose its full type name and bytes.",
    ["inputs"],
    "all message values x codecs x runtimes x byte strings x detail lookups",
    "Tests encode a couple of messages; codec agreement quantifies over values.",
    [S + "_codec.py", S + "compat/__init__.py", S + "errors.py"],
    [("codecs", S + "_codec.py"), ("compat codecs", S + "compat/"), ("error details", S + "errors.py")],
    ["codec encode/decode results", "error detail accessors"],
    "Differential against google.protobuf binary and JSON implementations.",
    technique="differential property-based testing",
)
prop(
    "P24", "Streaming is incremental in both directions",
    "In a stream, each message is handed over as soon as it is complete: a response the handler yields reaches the caller before the handler produces the next one, a request the caller yields reaches the handler before the caller produces more, and request iterators are pulled lazily. Bidirectional ping-pong conversations of any length therefore make progress without buffering or deadlock, and response headers are available with the first response.",
    ["schedules", "inputs"],
    "all streaming conversations (who waits for whom, message counts and sizes) x protocols x compressions x flavours",
    "Tests check final results; buffering bugs keep final results right but stall conversations.",
    [*SRV, *CLI, S + "_envelope.py"],
    [("streaming loops", S + "_server_async.py"), ("streaming loops", S + "_client_async.py"), ("lazy iteration", S + "_server_sync.py")],
    ["event order between caller and handler", "deadlock on the deterministic loop"],
    "Conversations with generated causal dependencies run on a deterministic loop on which a stall is detected immediately.",
    technique="property-based testing of causal event order on a deterministic event loop",
)


def main():
    claimed = {
        f[:-3].upper()
        for f in os.listdir(os.path.join(HERE, "pbt", "props"))
        if f.startswith("p") and f.endswith(".py")
    }
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            d = {
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p["observe"],
                    "hook_needed": None,
                },
            }
            f.write(json.dumps(d) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python /verif/check.py --selftest",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"/opt/venv/bin/python /verif/check.py {p['id']} --tier quick",
                "thorough_cmd": f"/opt/venv/bin/python /verif/check.py {p['id']} --tier thorough",
                "technique": p["technique"],
                "level": p["level"],
                "level_note": p["note"],
                "evidence_file": f"evidence/{p['id']}.json",
            }
            for p in PROPS
            if p["id"] in claimed
        ],
        "not_applicable": [
            {"property": p["id"], "reason": "Check still being built; not claimed yet."}
            for p in PROPS
            if p["id"] not in claimed
        ],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(m["checks"]), "claimed of", len(PROPS))


main()
