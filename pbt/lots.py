"""The cases of a property made larger: long streams, big messages, many and long headers and
trailers, long error messages with many and big details."""

from __future__ import annotations

from collections.abc import Callable
from typing import Any

from hypothesis import strategies as st


STREAMS = {"reqs": ("client", "bidi"), "ress": ("server", "bidi")}
ONE = ("req", "res")
MD = ("headers", "trailers", "late", "res_headers", "res_trailers")
PLANS = ("plan", "req_plan", "res_plan")
FULL = 1_500_000  # bytes that a case may have in all


def _opt(s: st.SearchStrategy) -> st.SearchStrategy:
    return st.one_of(st.none(), s)


COUNTS = st.sampled_from([5, 9, 17, 33, 65, 101, 129, 257, 300, 600])
SIZES = st.sampled_from([3000, 16385, 65537, 131073, 300_000, (1 << 20) + 1, 1_300_000])
DETAILS = st.tuples(st.sampled_from([1, 4, 17, 33, 65]), st.sampled_from([0, 58, 300, 3000, 40_000]), st.integers(0, 255))
TEXTS = st.tuples(st.sampled_from(["a", "a%", "é", "line\n", "😀 "]), st.sampled_from([65, 130, 257, 1025, 4097, 9000]))
METADATA = st.tuples(COUNTS, st.sampled_from([1, 3, 700]), st.sampled_from([0, 1, 70, 257, 1025, 8193]))


def spec(sizes: st.SearchStrategy = SIZES, counts: st.SearchStrategy = COUNTS) -> st.SearchStrategy:
    return st.fixed_dictionaries(
        {
            "count": _opt(counts),
            "size": _opt(st.tuples(sizes, st.integers(0, 255))),
            "md": _opt(METADATA),
            "text": _opt(TEXTS),
            "details": _opt(DETAILS),
            "scale": st.sampled_from([997, 4096, 65536]),
        }
    ).filter(lambda d: any(d[k] is not None for k in ("count", "size", "md", "text", "details")))


def expand(c: dict, d: dict, multi: Callable[[dict, str], bool] | None = None) -> dict:
    """c with the sizes of d; what c doesn't have is not added."""
    c = dict(c)
    size, pat = d["size"] or (0, 0)
    count = d["count"] or 1
    if size and count > 1:
        size = min(size, FULL // count)
    total = 0
    for key, kinds in (*STREAMS.items(), ("msgs", ())):
        if key not in c:
            continue
        many = multi(c, key) if multi else c["kind"] in kinds
        had = c[key]
        if d["count"] and many:
            base = had or [{}]
            had = [{**base[i % len(base)], "num": i} for i in range(count)]
        if size:
            had = [{**m, "data": {"n": size, "pat": pat}} for m in had]
        c[key] = had
        total += size * len(had)
    for key in ONE:
        if size and key in c:
            c[key] = {**c[key], "data": {"n": size, "pat": pat}}
            total += size
    if d["md"]:
        n, names, length = d["md"]
        n = min(n, max(5, 400_000 // (length + 1)))
        for key in MD:
            if key in c:
                c[key] = [*c[key], *((f"x-lots-{i % names}", f"{i}." + "abcdefgh/" * (length // 9) + "y" * (length % 9)) for i in range(n))]
    err = c.get("error")
    if err and "code" in err:
        if d["text"]:
            err = {**err, "message": d["text"][0] * d["text"][1]}
        if d["details"]:
            n, length, pat = d["details"]
            n = min(n, max(1, 400_000 // (length + 1)))
            err = {**err, "details": [*err["details"], *(("any", "vt.v1.Lots", {"n": length, "pat": pat + i}) for i in range(n))]}
        c["error"] = err
    if total > 20_000:
        up = lambda p: [max(1, x * d["scale"]) if x else 0 for x in p]  # noqa: E731
        for key in PLANS:
            if key in c:
                c[key] = up(c[key])
        if "plans" in c:
            c["plans"] = [up(p) for p in c["plans"]]
    return c


def strategy(base: Callable[[], st.SearchStrategy], **kw: Any) -> Callable[[], st.SearchStrategy]:
    return lambda: st.fixed_dictionaries({"base": base(), "lots": spec(**kw)})


def test(run: Callable[[dict, Any], None], **kw: Any) -> Callable[[dict, Any], None]:
    def go(c: dict, rec: Any) -> None:
        run(expand(c["base"], c["lots"], **kw), rec)
        for k, v in c["lots"].items():
            if v is not None and k != "scale":
                rec.label(f"lots of {k}")

    return go


