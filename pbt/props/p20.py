"""P20: tracing reports each call once, truthfully and without interfering."""

from __future__ import annotations

import asyncio
import contextlib
import ipaddress
import json
import logging
import os
import subprocess
import sys
from typing import Any

from hypothesis import strategies as st
from opentelemetry import context as otel_context
from opentelemetry import trace
from opentelemetry.instrumentation.asgi import OpenTelemetryMiddleware as AsgiMiddleware
from opentelemetry.instrumentation.wsgi import OpenTelemetryMiddleware as WsgiMiddleware
from opentelemetry.propagators.textmap import TextMapPropagator, default_getter, default_setter
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.sampling import ALWAYS_ON
from opentelemetry.sdk.trace.export import SimpleSpanProcessor
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
from opentelemetry.trace import SpanKind, StatusCode

from connectrpc.request import Headers
from connectrpc_otel import ConnectInstrumentor, OpenTelemetryInterceptor

from .. import http, msgs, rpc, vclock, wire
from ..core import HERE, REPO, Part, check, mostly
from .p22 import NAME, PORT, V6

logging.getLogger("opentelemetry").setLevel(logging.CRITICAL)

PID = "P20"
LEVEL = "exploration"
RULE = (
    "non-trivial: a failing, cancelled or concurrent call, an outer span or HTTP server span, an IPv6 / port-less / "
    "odd address or peer, a propagated context, or a history with at least two changes of instrumentation"
)
ASSUMPTIONS = [
    "spans and measurements are read through the SDK's in-memory exporters",
    "the status of a stream the caller abandons is not asserted, nor are calls refused before they reach a handler",
    "streams of one task are consumed one after another",
]
QUICK_BUDGET = 110.0

PEERS = [("10.1.2.3", 4321), ("client.example", 1), ("::1", 5), ("2001:db8::7", 65535), None]
RESOURCE = Resource({})


class Telemetry:
    """Exporters of one process."""

    def __init__(self) -> None:
        self.exporter = InMemorySpanExporter()
        self.tracers = TracerProvider(sampler=ALWAYS_ON, shutdown_on_exit=False, resource=RESOURCE)
        self.tracers.add_span_processor(SimpleSpanProcessor(self.exporter))
        self.reader = InMemoryMetricReader()
        self.meters = MeterProvider([self.reader], shutdown_on_exit=False, resource=RESOURCE)

    def kw(self) -> dict:
        return {"tracer_provider": self.tracers, "meter_provider": self.meters}

    def spans(self) -> list:
        return [s for s in self.exporter.get_finished_spans() if s.instrumentation_scope.name == "connectrpc-otel"]

    def counts(self, name: str) -> list[tuple[dict, int]]:
        """(attributes, number of measurements) of one histogram."""
        out = []
        data = self.reader.get_metrics_data()
        for rm in data.resource_metrics if data else ():
            for sm in rm.scope_metrics:
                if sm.scope.name != "connectrpc-otel":
                    continue
                for m in sm.metrics:
                    check(m.name in ("rpc.client.call.duration", "rpc.server.call.duration"), "metric-name", m.name)
                    if m.name == name:
                        for p in m.data.data_points:
                            check(p.sum >= 0, "metric-value", p.sum)
                            out.append((dict(p.attributes), p.count))
        return out


class HeaderPropagator(TextMapPropagator):
    """A custom propagator, to be used instead of the global one."""

    def extract(self, carrier: Any, context: Any = None, getter: Any = default_getter) -> Any:
        v = getter.get(carrier, "x-my-trace")
        if not v:
            return context
        t, s = v[0].split("/")
        sc = trace.SpanContext(int(t, 16), int(s, 16), True, trace.TraceFlags(1))
        return trace.set_span_in_context(trace.NonRecordingSpan(sc), context)

    def inject(self, carrier: Any, context: Any = None, setter: Any = default_setter) -> None:
        sc = trace.get_current_span(context).get_span_context()
        if sc.is_valid:
            setter.set(carrier, "x-my-trace", f"{sc.trace_id:x}/{sc.span_id:x}")

    @property
    def fields(self) -> set:
        return {"x-my-trace"}


class Svc(rpc.Router):
    """Also notes the span that is current in the handler."""

    def __init__(self, *a: Any) -> None:
        super().__init__(*a)
        self.current: dict[str, Any] = {}
        self.cancelled: set[str] = set()

    def _pick(self, ctx: Any) -> rpc.Script:
        self.current[ctx.request_headers["x-call"]] = trace.get_current_span().get_span_context()
        return super()._pick(ctx)

    async def _pause(self, ctx: Any, i: int) -> None:
        try:
            await super()._pause(ctx, i)
        except asyncio.CancelledError:
            self.cancelled.add(ctx.request_headers["x-call"])
            raise


def plain_host(host: str) -> str:
    """HTTP clients may write an IP address differently (RFC 5952, or 0.0.0.1 for the host 1)."""
    if host.isdecimal() and int(host) < 1 << 32:
        return str(ipaddress.IPv4Address(int(host)))
    try:
        return str(ipaddress.ip_address(host.strip("[]")))
    except ValueError:
        return host


def addr_attrs(span_attrs: dict, host: str | None, port: int | None, what: str) -> None:
    got = span_attrs.get(f"{what}.address")
    if host is None:
        check(got is None, f"{what}-address-invented", got)
        return
    check(isinstance(got, str) and plain_host(got) == plain_host(host), f"{what}-address", f"{got!r} want {host!r}")
    if port is not None:
        check(span_attrs.get(f"{what}.port") == port, f"{what}-port", f"{span_attrs.get(f'{what}.port')!r} want {port}")


def outcome(attrs: dict, span: Any, code: str | None, exc: str | None, where: str) -> None:
    if code is None:
        check("rpc.response.status_code" not in attrs or attrs["rpc.response.status_code"] == "ok", "status-of-success", lambda: f"{where}: {attrs}")
        check("error.type" not in attrs, "error-type-of-success", lambda: f"{where}: {attrs}")
        if span is not None:
            check(span.status.status_code is not StatusCode.ERROR, "span-status-of-success", lambda: f"{where}: {span.status}")
    else:
        check(attrs.get("rpc.response.status_code") == code, "status-code", lambda: f"{where}: {attrs} want {code}")
        check(attrs.get("error.type") == exc, "error-type", lambda: f"{where}: {attrs} want {exc}")
        if span is not None:
            check(span.status.status_code is StatusCode.ERROR, "span-status-of-error", lambda: f"{where}: {span.status}")


def basics(span: Any, kind: SpanKind, call_kind: str) -> dict:
    check(span.kind is kind, "span-kind", span.kind)
    name = f"vt.v1.Vt/{rpc.METHOD_NAME[call_kind]}"
    check(span.name == name, "span-name", span.name)
    a = dict(span.attributes)
    check(a.get("rpc.system.name") == "connectrpc", "rpc-system", a)
    check(a.get("rpc.method") == name, "rpc-method", a)
    check(span.end_time is not None and span.start_time <= span.end_time, "span-times", lambda: f"{span.start_time} {span.end_time}")
    return a


# -- calls ---------------------------------------------------------------------------------------

CALL = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(rpc.KINDS),
        "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
        "get": st.booleans(),
        "error": st.one_of(st.none(), rpc.ERRORS),
        "n": mostly(9, st.integers(0, 3), st.sampled_from([9, 33, 130])),
        "delays": st.lists(st.integers(0, 3).map(float), min_size=1, max_size=3),
        "timeout": st.one_of(st.none(), st.none(), st.none(), st.integers(1, 9).map(lambda h: h * 500)),
        "outer": st.booleans(),
        "headers": st.lists(st.tuples(st.sampled_from(["x-a", "x-b", "baggage"]), st.sampled_from(["k=v", "1"])), max_size=2),
        "as_map": st.booleans(),
    }
)


def calls_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "flavour": st.sampled_from(["asgi", "wsgi"]),
            "how": st.sampled_from(["explicit", "explicit", "instrumentor"]),
            "propagator": st.sampled_from([None, None, "custom"]),
            "middleware": st.sampled_from([False, False, True]),
            "scheme": st.sampled_from(["http", "https"]),
            "host": st.one_of(NAME, NAME, V6),
            "port": PORT,
            "prefix": st.sampled_from(["", "", "/x/y:9"]),
            "peer": st.sampled_from(PEERS),
            "drop": st.booleans(),
            "calls": mostly(9, st.lists(CALL, min_size=1, max_size=3), st.lists(CALL, min_size=4, max_size=16)),
            "concurrent": st.booleans(),
        }
    )


def build(c: dict, svc: Any, traced: bool, cl: Telemetry, sv: Telemetry, protocols: set) -> tuple:
    """(loopback transport, clients by protocol)"""
    flavour = c["flavour"]
    explicit = traced and c["how"] == "explicit"
    prop = HeaderPropagator() if c["propagator"] == "custom" and explicit else None
    inst = ConnectInstrumentor()
    skw: dict = {"interceptors": [OpenTelemetryInterceptor(propagator=prop, **sv.kw())]} if explicit else {}
    ckw: dict = {"interceptors": [OpenTelemetryInterceptor(propagator=prop, client=True, **cl.kw())]} if explicit else {}
    on = traced and not explicit
    if on:
        inst.instrument(**sv.kw())
    try:
        app: Any = rpc.make_app(flavour, svc, **skw)
    finally:
        if on:
            inst.uninstrument()
    if c["middleware"] and traced:
        app = (AsgiMiddleware if flavour == "asgi" else WsgiMiddleware)(app, tracer_provider=sv.tracers, meter_provider=MeterProvider(shutdown_on_exit=False, resource=RESOURCE))
    t: Any
    if flavour == "asgi":
        t = http.AsgiLoopback(app, client=c["peer"], cancel_on_disconnect=c["drop"])
    else:
        t = http.WsgiLoopback(app, client=c["peer"])
    address = f"{c['scheme']}://{c['host']}" + (f":{c['port']}" if c["port"] is not None else "") + c["prefix"]
    if on:
        inst.instrument(**cl.kw())
    try:
        mk = rpc.aclient if flavour == "asgi" else rpc.sclient
        clients = {p: mk(t, address, protocol=rpc.PROTOCOLS[p], **ckw) for p in sorted(protocols)}
    finally:
        if on:
            inst.uninstrument()
    return t, clients


PROPAGATED = {"traceparent", "tracestate", "x-my-trace"}


def perform(c: dict, traced: bool, cl: Telemetry, sv: Telemetry, tracer: Any) -> tuple:
    scripts, delays = {}, {}
    for i, call in enumerate(c["calls"]):
        single = call["kind"] not in ("server", "bidi")
        scripts[str(i)] = rpc.Script(ress=[{"num": j} for j in range(1 if single else call["n"])], error=call["error"], res_headers=[("x-r", str(i))])
        delays[str(i)] = call["delays"]
    svc = Svc(scripts, delays)
    t, clients = build(c, svc, traced, cl, sv, {x["protocol"] for x in c["calls"]})
    if c["prefix"]:
        # reached through a gateway which removes the prefix
        t.app = strip(t.app, c["prefix"], c["flavour"])
    outers: list[Any] = [None] * len(c["calls"])
    afters: list[Any] = [None] * len(c["calls"])

    def kw(i: int) -> dict:
        call = c["calls"][i]
        hs = [("x-call", str(i)), *dict(call["headers"]).items()]
        k: dict = {"headers": dict(hs) if call["as_map"] else Headers(hs)}
        if call["kind"] == "get":
            k["use_get"] = call["get"] and call["protocol"] == "connect"
        if call["timeout"] is not None:
            # real time passes for WSGI applications and sync clients: nothing expires there
            k["timeout_ms"] = call["timeout"] if c["flavour"] == "asgi" else call["timeout"] * 100
        return k

    reqs = [rpc.mk_req("py", {"text": "q"})]
    if c["flavour"] == "asgi":

        async def one(i: int) -> rpc.Result:
            call = c["calls"][i]
            if not (call["outer"] and traced):
                r = await rpc.acall(clients[call["protocol"]], call["kind"], reqs, **kw(i))
            else:
                with tracer.start_as_current_span("outer") as span:
                    outers[i] = span.get_span_context()
                    r = await rpc.acall(clients[call["protocol"]], call["kind"], reqs, **kw(i))
                    check(trace.get_current_span() is span, "caller-span-not-restored", lambda: repr(call))
            afters[i] = trace.get_current_span().get_span_context()
            return r

        async def go() -> list:
            if c["concurrent"]:
                rs = await asyncio.gather(*[asyncio.create_task(one(i)) for i in range(len(c["calls"]))])
            else:
                rs = [await one(i) for i in range(len(c["calls"]))]
            await asyncio.gather(*t.server_tasks, return_exceptions=True)
            return list(rs)

        rs = vclock.run(go).value
    else:
        rs = []
        for i, call in enumerate(c["calls"]):
            if not (call["outer"] and traced):
                rs.append(rpc.scall(clients[call["protocol"]], call["kind"], reqs, **kw(i)))
            else:
                with tracer.start_as_current_span("outer") as span:
                    outers[i] = span.get_span_context()
                    rs.append(rpc.scall(clients[call["protocol"]], call["kind"], reqs, **kw(i)))
                    check(trace.get_current_span() is span, "caller-span-not-restored", lambda: repr(call))
            afters[i] = trace.get_current_span().get_span_context()
    return rs, scripts, svc, outers, afters, t


def strip(app: Any, prefix: str, flavour: str) -> Any:
    if flavour == "asgi":

        async def asgi(scope: dict, receive: Any, send: Any) -> None:
            p = scope["path"].removeprefix(prefix)
            await app({**scope, "path": p, "raw_path": p.encode()}, receive, send)

        return asgi

    def wsgi(environ: dict, start: Any) -> Any:
        return app({**environ, "PATH_INFO": environ["PATH_INFO"].removeprefix(prefix)}, start)

    return wsgi


def calls_test(c: dict, rec: Any) -> None:
    if c["middleware"]:
        c = {**c, "propagator": None}  # it reads the headers of the global one
    cl, sv = Telemetry(), Telemetry()
    tracer = cl.tracers.get_tracer("caller")
    plain, pscripts, *_ = perform(c, False, cl, sv, tracer)
    check(not cl.exporter.get_finished_spans() and not sv.exporter.get_finished_spans(), "span-without-instrumentation", "")
    rs, scripts, svc, outers, afters, t = perform(c, True, cl, sv, tracer)
    cspans, sspans = cl.spans(), sv.spans()
    check(all(s.kind is SpanKind.CLIENT for s in cspans), "client-side-span-kind", lambda: [s.kind for s in cspans])
    check(len(cspans) == len(c["calls"]), "client-span-count", lambda: f"{len(cspans)} for {len(c['calls'])} calls")
    handled = [i for i in range(len(c["calls"])) if scripts[str(i)].seen or str(i) in svc.cancelled]
    spans_by_id = {s.context.span_id: s for s in sv.exporter.get_finished_spans()}
    by_id = {s.context.span_id: s for s in cspans}
    used: set = set()
    want_c, want_s = [], []
    scheme_port = c["port"] if c["port"] is not None else (443 if c["scheme"] == "https" else 80)
    # Client spans by call: the header the server received carries the span's id.
    for i, call in enumerate(c["calls"]):
        where = f"{call['protocol']}/{call['kind']}"
        # nothing but the propagation differs from the call without instrumentation
        r, p = rs[i], plain[i]
        check(r.messages == p.messages, "result-changed", lambda: f"{r.messages} was {p.messages}")
        check((r.error is None) == (p.error is None), "outcome-changed", lambda: f"{r.error!r} was {p.error!r}")
        if r.error is not None:
            check(rpc.observed_error(r.error) == rpc.observed_error(p.error), "error-changed", lambda: f"{r.error!r} was {p.error!r}")
        check(not afters[i].is_valid, "span-left-current", lambda: f"{where} {afters[i]}")
        s, ps = scripts[str(i)].seen, pscripts[str(i)].seen
        check(len(s) == len(ps), "handler-invocations-changed", lambda: f"{len(s)} was {len(ps)}")
        reqs = [q for q in t.requests if ("x-call", str(i)) in q.headers]
        check(len(reqs) <= 1, "sent-twice", len(reqs))
        if not reqs:
            continue
        hs = dict(reqs[0].headers)
        if s and ps:
            got = [h for h in s[0].headers if h[0] not in PROPAGATED]
            check(sorted(h for h in got if h[0] != "connect-timeout-ms" and h[0] != "grpc-timeout") == sorted(h for h in ps[0].headers if h[0] != "connect-timeout-ms" and h[0] != "grpc-timeout"), "request-headers-changed", lambda: f"{got} was {ps[0].headers}")
        custom = c["propagator"] == "custom" and c["how"] == "explicit"
        check(("x-my-trace" in hs) == custom and ("traceparent" in hs) != custom, "propagation-headers", lambda: repr(hs))
        tid, sid = hs["x-my-trace"].split("/") if custom else hs["traceparent"].split("-")[1:3]
        span = by_id.get(int(sid, 16))
        check(span is not None and span.context.trace_id == int(tid, 16), "propagated-context-is-not-the-client-span", lambda: f"{where}: {hs} client spans {list(by_id)} outer {outers[i]}")
        check(span.context.span_id not in used, "span-shared", "")
        used.add(span.context.span_id)
        a = basics(span, SpanKind.CLIENT, call["kind"])
        addr_attrs(a, c["host"], scheme_port, "server")
        code = None if r.error is None else r.error.code.value
        outcome(a, span, code, "ConnectError", "client " + where)
        want_c.append((call["kind"], code, "ConnectError" if code else None))
        if outers[i] is None:
            check(span.parent is None, "client-span-parent", lambda: repr(span.parent))
        else:
            check(span.parent is not None and span.parent.span_id == outers[i].span_id and span.context.trace_id == outers[i].trace_id, "client-span-parent", lambda: f"{span.parent} outer {outers[i]}")
        # the server's side
        if i not in handled:
            continue
        mine = [x for x in sspans if x.context.trace_id == span.context.trace_id and descends(x, span.context.span_id, spans_by_id)]
        check(len(mine) == 1, "server-span-count", lambda: f"{where}: {len(mine)} of {len(sspans)} server spans belong to the call; parents {[x.parent for x in sspans]} client span {span.context}")
        x = mine[0]
        if not c["middleware"]:
            check(x.parent.span_id == span.context.span_id, "server-span-parent", "")
        used.add(x.context.span_id)
        a = basics(x, SpanKind.SERVER, call["kind"])
        addr_attrs(a, c["host"], scheme_port, "server")
        addr_attrs(a, *(c["peer"] or (None, None)), "client")
        if str(i) in svc.cancelled:
            code = a.get("rpc.response.status_code")
            check(code in ("canceled", "deadline_exceeded"), "status-of-cancelled", lambda: f"{where}: {a}")
            want_s.append((call["kind"], code, a.get("error.type")))
            rec.label("cancelled")
        elif call["timeout"] is not None and rs[i].error is not None and rs[i].error.code.value == "deadline_exceeded":
            want_s.append((call["kind"], a.get("rpc.response.status_code"), a.get("error.type")))  # either way
            rec.label("timed out")
        else:
            e = call["error"]
            code = None if e is None else e.get("code", "unknown")
            exc = None if e is None else type(rpc.mk_error(e)).__qualname__
            outcome(a, x, code, exc, "server " + where)
            want_s.append((call["kind"], code, exc))
        if str(i) in svc.current:
            check(svc.current[str(i)].span_id == x.context.span_id, "handler-outside-its-span", lambda: f"{svc.current[str(i)]}")
        rec.label(f"{where}/{'error' if rs[i].error else 'ok'}")
    check(len(sspans) == len(handled), "server-span-total", lambda: f"{len(sspans)} for {len(handled)} handled calls")
    for name, tel, want in (("rpc.client.call.duration", cl, want_c), ("rpc.server.call.duration", sv, want_s)):
        got: list = []
        for attrs, n in tel.counts(name):
            check(attrs.get("rpc.system.name") == "connectrpc", "metric-system", attrs)
            addr_attrs(attrs, c["host"], scheme_port, "server")
            kind = {v: k for k, v in rpc.METHOD_NAME.items()}.get(str(attrs.get("rpc.method", "")).rpartition("/")[2])
            got += [(kind, attrs.get("rpc.response.status_code"), attrs.get("error.type"))] * n
        if name.startswith("rpc.client") and len(want) < len(c["calls"]):
            check(len(got) == len(c["calls"]), "measurement-count", lambda: f"{name}: {got}")
        else:
            check(sorted(map(str, got)) == sorted(map(str, want)), "measurements", lambda: f"{name}: {got} want {want}")
    rec.label(c["flavour"] + "/" + c["how"])
    if any(r.error for r in rs) or len(rs) > 1 or any(outers) or c["middleware"] or c["port"] is None or c["host"].startswith("[") or c["propagator"]:
        rec.nontrivial(f"{c['flavour']} {len(rs)} calls")


def descends(span: Any, ancestor: int, spans: dict) -> bool:
    for _ in range(5):
        if span is None or span.parent is None:
            return False
        if span.parent.span_id == ancestor:
            return True
        span = spans.get(span.parent.span_id)
    return False


# -- requests of any origin to the server ------------------------------------------------------------

HEX = "0123456789abcdef"
TRACEPARENT = st.one_of(
    st.none(),
    st.tuples(st.text(HEX, min_size=32, max_size=32), st.text(HEX, min_size=16, max_size=16), st.sampled_from(["01", "00"])).map(lambda t: "00-" + "-".join(t)),
    st.tuples(st.text(HEX, min_size=32, max_size=32), st.text(HEX, min_size=16, max_size=16)).map(lambda t: "00-" + "-".join(t) + "-01"),
    st.sampled_from(["", "00", "x", "00-" + "0" * 32 + "-" + "1" * 16 + "-01", "ff-" + "1" * 32 + "-" + "1" * 16 + "-01", "00-" + "1" * 32 + "-" + "1" * 16 + "-01-extra"]),
)
ODD_HOST = st.one_of(
    st.sampled_from(["", ":", "a:", ":80", "a:b", "[::1]", "[::1]:x", "::1", "a:99999999", "a:-1", "a: 80", "a:80:90", "[", "]:1", "a:8_0", "a:+80", "@", "a b", "a:1e3", "user@a:5"]),
    st.text(alphabet="ab1:[]./@_- ", max_size=8),
)


def server_strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "flavour": st.sampled_from(["asgi", "wsgi"]),
            "kind": st.sampled_from(rpc.KINDS),
            "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
            "scheme": st.sampled_from(["http", "https"]),
            "host": st.one_of(st.none(), NAME.map(lambda s: ("ok", s)), V6.map(lambda s: ("ok", s)), ODD_HOST.map(lambda s: ("odd", s)), ODD_HOST.map(lambda s: ("odd", s))),
            "port": PORT,
            "peer": st.one_of(
                st.sampled_from(PEERS),
                st.tuples(st.sampled_from(["", "/run/app.sock", "a", "::1", "a:b", "unix:"]), st.one_of(st.none(), st.sampled_from([0, 1, 70000, ""]))),
            ),
            "traceparent": TRACEPARENT,
            "tracestate": st.sampled_from([None, "a=b", "x", ",,,"]),
            "baggage": st.sampled_from([None, "a=b", ";;==", "%"]),
            "error": st.booleans(),
            # the span of the HTTP server, if it is traced
            "current": st.sampled_from([None, None, "recording", "sampled", "unsampled"]),
        }
    )


@contextlib.contextmanager
def http_span(how: str | None) -> Any:
    if how is None:
        yield None
        return
    span: Any
    if how == "recording":
        span = TracerProvider(shutdown_on_exit=False, resource=RESOURCE).get_tracer("http").start_span("POST", context=otel_context.Context())
    else:
        span = trace.NonRecordingSpan(trace.SpanContext(0xAA, 0xBB, is_remote=False, trace_flags=trace.TraceFlags(how == "sampled")))
    with trace.use_span(span):
        yield span.get_span_context()


def in_http_span(flavour: str, app: Any, how: str | None, outers: list) -> Any:
    """app as an instrumented HTTP server calls it."""
    if flavour == "asgi":

        async def asgi(scope: Any, receive: Any, send: Any) -> None:
            with http_span(how) as outer:
                outers.append(outer)
                await app(scope, receive, send)

        return asgi

    def wsgi(environ: Any, start_response: Any) -> Any:
        with http_span(how) as outer:
            outers.append(outer)
            resp = app(environ, start_response)
            try:
                yield from resp
            finally:
                if hasattr(resp, "close"):
                    resp.close()

    return wsgi


def server_test(c: dict, rec: Any) -> None:
    import opentelemetry.trace.propagation.tracecontext as tc

    flavour, kind, protocol = c["flavour"], c["kind"], c["protocol"]
    hs = []
    if c["host"] is not None:
        ok, host = c["host"]
        hs.append(("host", host + (f":{c['port']}" if ok == "ok" and c["port"] is not None else "")))
    for k in ("traceparent", "tracestate", "baggage"):
        if c[k] is not None:
            hs.append((k, c[k]))
    peer = c["peer"]
    if peer and flavour == "asgi" and not isinstance(peer[1], int):
        peer = (peer[0], None) if peer[1] is None else None
    error = {"code": "aborted", "message": "m", "details": []} if c["error"] else None
    h, body = wire.build_request(protocol, kind in ("unary", "get"), "json", [b"{}"], encoding="identity", accept=[], headers=hs)
    outs, seens, tel = [], [], Telemetry()
    outers: list = []
    for interceptors in ([], [OpenTelemetryInterceptor(**tel.kw())]):
        svc = rpc.Script(ress=[{"text": "r"}], error=error)
        app = rpc.make_app(flavour, svc, interceptors=interceptors)
        outs.append(http.call(flavour, in_http_span(flavour, app, c["current"], outers), "POST", rpc.path(kind), h, body, scheme=c["scheme"], client=peer))
        seens.append(svc.seen)
    plain, out = outs
    check(out.exc is None or plain.exc is not None, "call-broken-by-instrumentation", lambda: repr(out.exc))
    check((out.status, out.body, sorted(out.headers), out.trailers) == (plain.status, plain.body, sorted(plain.headers), plain.trailers), "response-changed-by-instrumentation", lambda: f"{out.status} {out.body!r} was {plain.status} {plain.body!r}")
    check(len(seens[0]) == len(seens[1]), "handler-invocations-changed", lambda: f"{len(seens[1])} was {len(seens[0])}")
    spans = tel.spans()
    if not seens[0]:
        rec.label("refused")
        return
    check(len(spans) == 1, "server-span-count", len(spans))
    a = basics(spans[0], SpanKind.SERVER, kind)
    exc = type(rpc.mk_error(error)).__qualname__ if error else None
    n = tel.counts("rpc.server.call.duration")
    check(len(n) == 1 and n[0][1] == 1, "measurements", n)
    outcome(a, spans[0], "aborted" if error else None, exc, "server")
    outcome(n[0][0], None, "aborted" if error else None, exc, "server metric")
    if c["host"] is None:
        addr_attrs(a, None, None, "server")
    elif c["host"][0] == "ok":
        want = (c["host"][1], c["port"] if c["port"] is not None else (443 if c["scheme"] == "https" else 80))
        addr_attrs(a, *want, "server")
        addr_attrs(n[0][0], *want, "server")
    if peer is None:
        addr_attrs(a, None, None, "client")
    elif peer in PEERS:
        addr_attrs(a, *peer, "client")
    for k in ("server", "client"):
        check(isinstance(a.get(f"{k}.port", 0), int), f"{k}-port-type", lambda: repr(a))
        check(isinstance(a.get(f"{k}.address", ""), str), f"{k}-address-type", lambda: repr(a))
    # The reference reading of traceparent is OpenTelemetry's own propagator.
    ref = trace.get_current_span(tc.TraceContextTextMapPropagator().extract({k: c[k] for k in ("traceparent", "tracestate") if c[k] is not None})).get_span_context()
    outer = outers[-1] if outers else None
    if outer is not None:
        check(spans[0].parent is not None and spans[0].parent.span_id == outer.span_id and spans[0].context.trace_id == outer.trace_id, "not-within-http-span", lambda: f"{spans[0].parent} want {outer}")
    elif ref.is_valid:
        check(spans[0].parent is not None and spans[0].parent.span_id == ref.span_id and spans[0].context.trace_id == ref.trace_id, "server-span-parent", lambda: f"{spans[0].parent} want {ref}")
    else:
        check(spans[0].parent is None, "parent-invented", lambda: repr(spans[0].parent))
    odd = c["host"] is not None and c["host"][0] == "odd" or (peer is not None and peer not in PEERS)
    rec.label(f"{flavour}/{'odd' if odd else 'plain'} address")
    if odd or ref.is_valid or c["error"] or outer:
        rec.nontrivial("http span" if outer else "propagated" if ref.is_valid else "odd address" if odd else "error")


# -- histories of instrumenting, in one process ----------------------------------------------------------

HOW = st.sampled_from(["none", "none", "list", "tuple", "iter", "gen", "own", "own-iter", "default-none"])


def hist_strategy() -> st.SearchStrategy:
    op = st.one_of(
        st.tuples(st.just("instrument"), st.integers(0, 1)),
        st.tuples(st.just("uninstrument")),
        st.tuples(st.just("make"), st.sampled_from(["asgi", "wsgi"]), HOW, HOW),
        st.tuples(st.just("call"), st.integers(0, 7), st.sampled_from(rpc.KINDS)),
        st.tuples(st.just("make-call"), st.sampled_from(["asgi", "wsgi"]), HOW, HOW),
    )
    return st.lists(op, min_size=2, max_size=10)


class Count:
    def __init__(self) -> None:
        self.n = 0

    async def on_start(self, ctx: Any) -> None:
        self.n += 1

    async def on_end(self, token: Any, ctx: Any, error: Any) -> None:
        pass

    def on_start_sync(self, ctx: Any) -> None:
        self.n += 1

    def on_end_sync(self, token: Any, ctx: Any, error: Any) -> None:
        pass


class CountAsync:
    """Only for async applications and clients."""

    def __init__(self) -> None:
        self.n = 0

    on_start, on_end = Count.on_start, Count.on_end


class CountSync:
    def __init__(self) -> None:
        self.n = 0

    on_start_sync, on_end_sync = Count.on_start_sync, Count.on_end_sync


def given_interceptors(how: str, flavour: str, own: Telemetry, client: bool) -> tuple[dict, Any, bool]:
    if how == "none":
        return {}, None, False
    if how == "default-none":
        return {"interceptors": []}, None, False
    count = CountAsync() if flavour == "asgi" else CountSync()
    items: list = [count]
    mine = how.startswith("own")
    if mine:
        items.append(OpenTelemetryInterceptor(client=client, **own.kw()))
    seq: Any = {"list": list, "tuple": tuple, "iter": iter, "gen": lambda x: (i for i in x), "own": list, "own-iter": iter}[how](items)
    return {"interceptors": seq}, count, mine


def hist_test(ops: list, rec: Any) -> None:
    tels, own = [Telemetry(), Telemetry()], Telemetry()
    inst = ConnectInstrumentor()
    on: int | None = None
    pairs: list[dict] = []
    changes = 0

    def make(flavour: str, hs: str, hc: str) -> None:
        svc = rpc.Script(ress=[{"text": "r"}])
        skw, scount, sown = given_interceptors(hs, flavour, own, False)
        ckw, ccount, cown = given_interceptors(hc, flavour, own, True)
        app = rpc.make_app(flavour, svc, **skw)
        t = http.AsgiLoopback(app) if flavour == "asgi" else http.WsgiLoopback(app)
        client = (rpc.aclient if flavour == "asgi" else rpc.sclient)(t, **ckw)
        pairs.append(
            {
                "flavour": flavour, "client": client, "counts": [x for x in (scount, ccount) if x is not None], "svc": svc,
                "s": own if sown else None if on is None else tels[on], "c": own if cown else None if on is None else tels[on],
                "t": t,
            }
        )

    def call(p: dict, kind: str) -> None:
        for tel in (*tels, own):
            tel.exporter.clear()
        before = [x.n for x in p["counts"]]
        reqs = [rpc.mk_req("py", {"text": "q"})]
        if p["flavour"] == "asgi":

            p["t"].server_tasks.clear()

            async def go() -> Any:
                r = await rpc.acall(p["client"], kind, reqs)
                await asyncio.gather(*p["t"].server_tasks)
                return r

            r = vclock.run(go).value
        else:
            r = rpc.scall(p["client"], kind, reqs)
        check(r.error is None and len(r.messages) == 1, "call-failed", lambda: f"{r.error!r} {ops}")
        check([x.n for x in p["counts"]] == [n + 1 for n in before], "other-interceptors-lost", lambda: f"{[x.n for x in p['counts']]} after {before}")
        for tel, name in ((tels[0], "first"), (tels[1], "second"), (own, "explicit")):
            got = sorted(s.kind.name for s in tel.spans())
            want = sorted(n for n, k in (("CLIENT", "c"), ("SERVER", "s")) if p[k] is tel)
            check(got == want, "spans-of-history", lambda: f"{name} telemetry: {got} want {want} after {ops}")

    try:
        for op in ops:
            if op[0] == "instrument":
                if on is None:
                    on = op[1]
                    changes += 1
                inst.instrument(**tels[op[1]].kw())  # again: documented to be ignored
            elif op[0] == "uninstrument":
                changes += on is not None
                inst.uninstrument()
                on = None
            elif op[0] == "make":
                make(*op[1:])
            elif op[0] == "make-call":
                make(*op[1:])
                call(pairs[-1], "unary")
                rec.label("instrumented" if on is not None else "plain")
            elif pairs:
                call(pairs[op[1] % len(pairs)], op[2])
    finally:
        inst.uninstrument()
    if changes >= 2:
        rec.nontrivial(f"{changes} changes")


# -- histories that begin before the library is imported ------------------------------------------------


def fresh_strategy() -> st.SearchStrategy:
    return st.lists(
        st.one_of(
            st.sampled_from(["instrument", "uninstrument", "import client", "import server", "call async", "call sync"]),
            st.sampled_from(["instrument", "uninstrument"]),
        ),
        min_size=1,
        max_size=6,
    ).map(lambda ops: [*ops, "call async", "call sync"])


def fresh_test(ops: list, rec: Any) -> None:
    want, on, first = [], False, None
    for op in ops:
        if op == "instrument":
            on = True
        elif op == "uninstrument":
            on = False
        elif op.startswith("call"):
            want.append(["CLIENT", "SERVER"] if on else [])
            first = first or on
    p = subprocess.run(
        [sys.executable, os.path.join(HERE, "pbt", "otel_fresh.py"), json.dumps(ops)],
        capture_output=True, text=True, timeout=60, env={**os.environ, "VERIF_REPO": REPO},
    )
    check(p.returncode == 0, "history-crashed", lambda: p.stderr[-1500:])
    got = json.loads(p.stdout.splitlines()[-1])
    check(got == want, "spans-of-history", lambda: f"{got} want {want} after {ops}")
    n = sum(op in ("instrument", "uninstrument") for op in ops)
    rec.label(f"{n} changes")
    if n >= 2:
        rec.nontrivial(f"{n} changes before/after import")


PARTS = [
    Part("calls", calls_strategy, calls_test, quick=4000, shards=4, case_cpu_s=20),
    Part("server", server_strategy, server_test, quick=4000, shards=4),
    Part("histories", hist_strategy, hist_test, quick=1500, shards=2),
    Part("import-order", fresh_strategy, fresh_test, quick=80, thorough=2000, shards=4, case_cpu_s=60),
]
