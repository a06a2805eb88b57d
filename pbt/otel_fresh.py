"""Runs a history of instrumenting, importing and calling in a fresh process (P20).

Prints, per call, the kinds of the spans it produced."""

import sys

sys.path.pop(0)  # this folder

import asyncio  # noqa: E402
import json  # noqa: E402
import os  # noqa: E402

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [
    os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
    os.path.join(REPO, "src"),
    os.path.join(REPO, "connectrpc-otel"),
]

import hypothesis  # noqa: E402,F401
import pyqwest  # noqa: E402,F401
from opentelemetry.sdk.resources import Resource  # noqa: E402
from opentelemetry.sdk.trace import TracerProvider  # noqa: E402
from opentelemetry.sdk.trace.export import SimpleSpanProcessor  # noqa: E402
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter  # noqa: E402

sys.pycache_prefix = os.path.join("/nonexistent", "verif")

from connectrpc_otel import ConnectInstrumentor  # noqa: E402

exporter = InMemorySpanExporter()
tracers = TracerProvider(resource=Resource({}))
tracers.add_span_processor(SimpleSpanProcessor(exporter))


def call(flavour: str) -> list[str]:
    from pbt import http, rpc

    exporter.clear()
    app = rpc.make_app(flavour, rpc.Script(ress=[{"text": "r"}]))
    reqs = [rpc.mk_req("py", {"text": "q"})]
    if flavour == "asgi":

        async def go() -> rpc.Result:
            t = http.AsgiLoopback(app)
            r = await rpc.acall(rpc.aclient(t), "unary", reqs)
            await asyncio.gather(*t.server_tasks)
            return r

        r = asyncio.run(go())
    else:
        r = rpc.scall(rpc.sclient(http.WsgiLoopback(app)), "unary", reqs)
    if r.error is not None:
        raise r.error
    return sorted(s.kind.name for s in exporter.get_finished_spans())


out = []
for op in json.loads(sys.argv[1]):
    if op == "instrument":
        ConnectInstrumentor().instrument(tracer_provider=tracers)
    elif op == "uninstrument":
        ConnectInstrumentor().uninstrument()
    elif op == "import client":
        import connectrpc.client  # noqa: F401
    elif op == "import server":
        import connectrpc.server  # noqa: F401
    elif op == "call async":
        out.append(call("asgi"))
    else:
        out.append(call("wsgi"))
print(json.dumps(out))
