"""P04: errors raised by a handler reach the caller intact."""

from __future__ import annotations

from hypothesis import strategies as st

from .. import http, interop, msgs, rpc, vclock, wire
from ..core import Part, check

PID = "P04"
LEVEL = "exploration"
RULE = (
    "non-trivial: the error has details, or a message with a character outside [A-Za-z0-9 ], or is "
    "raised after at least one response, or is not an RPC error"
)
ASSUMPTIONS = ["error messages and detail type names are valid Unicode (no lone surrogates)"]
QUICK_BUDGET = 100.0


def strategy(pairs: list[str]) -> st.SearchStrategy:
    def build(kind: str) -> st.SearchStrategy:
        return st.fixed_dictionaries(
            {
                "kind": st.just(kind),
                "pair": st.sampled_from(pairs),
                "protocol": st.sampled_from(list(rpc.PROTOCOLS)),
                "codec": st.sampled_from(["proto", "json"]),
                "send": st.sampled_from([None, "gzip"]),
                "accept": rpc.COMP_SET,
                "srv": st.one_of(st.none(), st.just(["gzip", "br", "zstd"])),
                "reqs": st.lists(msgs.reqs(), min_size=1, max_size=3 if kind in ("client", "bidi") else 1),
                "ress": st.lists(msgs.ress(), max_size=4) if kind in ("server", "bidi") else st.just([{}]),
                "error": st.one_of(rpc.ERRORS, rpc.ERRORS, rpc.ERRORS, rpc.ERRORS, rpc.ERRORS, rpc.STOP_ERRORS),
                "use_get": st.booleans() if kind == "get" else st.just(False),
                "read": st.one_of(st.none(), st.integers(0, 2)) if kind == "client" else st.none(),
                "interleave": st.one_of(st.none(), st.just([1])) if kind == "bidi" else st.none(),
                "plan": rpc.PLAN,
                "headers": rpc.HEADER_LIST,
                "trailers": rpc.HEADER_LIST,
            }
        )

    return st.sampled_from(rpc.KINDS).flatmap(build)


def run_pair(c: dict, svc: rpc.Script, app, reqs: list) -> rpc.Result:
    caller, flavour = c["pair"].split("-")
    kw = dict(
        protocol=rpc.PROTOCOLS[c["protocol"]],
        codec=rpc.codec(c["codec"]),
        send_compression=rpc.comp(c["send"]) if c["send"] else None,
        accept_compression=rpc.comps(c["accept"]),
    )
    use_get = c.get("use_get", False) and c["protocol"] == "connect"
    if caller == "async":
        t = (
            http.AsgiLoopback(app, res_plan=c["plan"])
            if flavour == "asgi"
            else http.BufferedToWsgi(app, res_plan=c["plan"])
        )
        return vclock.run(
            lambda: rpc.acall(rpc.aclient(t, **kw), c["kind"], reqs, use_get=use_get)
        ).value
    t = (
        http.WsgiLoopback(app, res_plan=c["plan"])
        if flavour == "wsgi"
        else http.BufferedToAsgi(app, res_plan=c["plan"])
    )
    return rpc.scall(rpc.sclient(t, **kw), c["kind"], reqs, use_get=use_get)


def test(c: dict, rec) -> None:
    kind = c["kind"]
    svc = rpc.Script(
        ress=c["ress"], error=c["error"], interleave=c["interleave"], read=c["read"],
        res_headers=c["headers"], res_trailers=c["trailers"],
    )
    app = rpc.make_app(c["pair"].split("-")[1], svc, compressions=rpc.comps(c["srv"]))
    res = run_pair(c, svc, app, [rpc.mk_req("py", r) for r in c["reqs"]])
    check(res.error is not None, "error-lost", lambda: f"got {res.messages}")
    got = rpc.observed_error(res.error)
    want = rpc.expected_error(c["error"])
    check(got.code == want.code, "code-differs", f"{got} want {want}")
    if c["error"].get("exc") in rpc.STOPS and " raised Stop" in got.message:
        want = wire.Err(want.code, got.message, want.details)  # Python replaces these in generators and coroutines
    check(got.message == want.message, "message-differs", f"{got.message!r} want {want.message!r}")
    check(got.details == want.details, "details-differ", f"{got.details} want {want.details}")
    check(len(svc.seen) == 1, "handler-invocations", len(svc.seen))
    if kind in ("server", "bidi"):
        wantm = [msgs.nres(r) for r in c["ress"]]
        check(res.messages == wantm, "responses-before-error-differ", f"{res.messages} want {wantm}")
    rec.label(c["pair"])
    rec.label(f"{c['protocol']}/{kind}")
    if "exc" in c["error"]:
        rec.nontrivial("exception")
    elif c["error"]["details"]:
        rec.nontrivial(f"details {c['protocol']}")
    elif kind in ("server", "bidi") and c["ress"]:
        rec.nontrivial("after responses")
    elif not all(ch.isascii() and (ch.isalnum() or ch == " ") for ch in want.message):
        rec.nontrivial("text")


# -- long messages, many and large details ---------------------------------------------------------


def lots_strategy() -> st.SearchStrategy:
    detail = st.fixed_dictionaries(
        {"n": st.sampled_from([1, 4, 17, 40]), "size": st.sampled_from([0, 100, 3000, 70_000]), "pat": st.integers(0, 255), "name": rpc.TYPE_NAMES}
    )
    text = st.tuples(st.sampled_from(["", "a", "a%", "é", "line\n", "😀 "]), st.sampled_from([1, 100, 1000, 1025, 4097, 20_000]))
    return st.tuples(
        strategy(["async-asgi", "sync-wsgi"]), st.lists(detail, max_size=2), text, st.sampled_from(wire.CODE_NAMES)
    ).map(lambda x: {"base": {**x[0], "error": None}, "details": x[1], "text": x[2], "code": x[3]})


def lots_test(c: dict, rec: Any) -> None:
    details = [("any", d["name"], {"n": d["size"], "pat": d["pat"] + i}) for d in c["details"] for i in range(d["n"])]
    text, n = c["text"]
    test({**c["base"], "error": {"code": c["code"], "message": text * n, "details": details}}, rec)


PARTS = [
    Part("lots", lots_strategy, lots_test, quick=120, shards=2),
    Part("async", lambda: strategy(["async-asgi"]), test, quick=1500, shards=2),
    Part("sync", lambda: strategy(["sync-wsgi"]), test, quick=1500, shards=2),
    Part("cross", lambda: strategy(["async-wsgi", "sync-asgi"]), test, quick=1200, shards=2),
    Part("sockets", lambda: interop.sockets_strategy(rpc.ERRORS), interop.sockets_test, quick=500, shards=2),
]
