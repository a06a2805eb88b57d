"""P12: the header container behaves as a case-insensitive multimap."""

from __future__ import annotations

import copy
import pickle

from hypothesis import strategies as st

from connectrpc.request import Headers

from ..core import Part, Violation, check, mostly

PID = "P12"
LEVEL = "exploration"
RULE = (
    "non-trivial: the sequence has at least four operations and at some point a name had several "
    "values, or a name was reused in another letter case or after its deletion"
)
ASSUMPTIONS = ["names and values are strings"]
QUICK_BUDGET = 100.0

NAMES = ["a", "A", "b", "B", "x-y", "X-Y", "X-y", "", "é", "É", "İ", "ΑΣ", "c", "content-type"]
NAME = st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES[:6]), st.sampled_from(NAMES[:4]))
VALUE = st.sampled_from(["", "1", "2", "1", "x", "Long Value, with; stuff"])
PAIRS = st.lists(st.tuples(NAME, VALUE), max_size=5)

OP = st.one_of(
    st.tuples(st.just("set"), NAME, VALUE),
    st.tuples(st.just("add"), NAME, VALUE),
    st.tuples(st.just("add"), NAME, VALUE),
    st.tuples(st.just("add-many"), NAME, st.one_of(st.integers(2, 20), st.integers(2, 20), st.sampled_from([33, 64, 130]))),
    st.tuples(st.just("del"), NAME),
    st.tuples(st.just("pop"), NAME),
    st.tuples(st.just("popd"), NAME, VALUE),
    st.tuples(st.just("popitem")),
    st.tuples(st.just("setdefault"), NAME, VALUE),
    st.tuples(st.just("update-dict"), PAIRS),
    st.tuples(st.just("update-pairs"), PAIRS),
    st.tuples(st.just("update-headers"), PAIRS),
    st.tuples(st.just("update-kw"), VALUE),
    st.tuples(st.just("clear")),
    st.tuples(st.just("copy"), st.sampled_from(["allitems-list", "allitems-tuple", "headers", "dict", "copy", "deepcopy", "pickle", "generator"])),
    st.tuples(st.just("fork")),
)
INIT = st.one_of(
    st.tuples(st.just("empty")),
    st.tuples(st.just("pairs"), PAIRS),
    st.tuples(st.just("dict"), PAIRS),
    st.tuples(st.just("headers"), PAIRS),
)


class Model:
    def __init__(self) -> None:
        self.d: dict[str, list[str]] = {}

    def set(self, k: str, v: str) -> None:
        self.d[k.lower()] = [v]

    def add(self, k: str, v: str) -> None:
        self.d.setdefault(k.lower(), []).append(v)

    def pairs(self) -> list[tuple[str, str]]:
        return [(k, v) for k, vs in self.d.items() for v in vs]

    def clone(self) -> "Model":
        m = Model()
        m.d = {k: list(v) for k, v in self.d.items()}
        return m


def build(init: tuple) -> tuple[Headers, Model]:
    m = Model()
    if init[0] == "empty":
        return Headers(), m
    if init[0] == "dict":
        for k, v in dict(init[1]).items():
            m.set(k, v)
        return Headers(dict(init[1])), m
    for k, v in init[1]:
        m.add(k, v)
    if init[0] == "headers":
        return Headers(Headers(init[1])), m
    return Headers(init[1]), m


def observe(h: Headers, m: Model, when: str) -> None:
    d = m.d

    def eq(got: object, want: object, sig: str) -> None:
        check(got == want, sig, lambda: f"after {when}: {got!r} want {want!r} (model {d})")

    eq(len(h), len(d), "len")
    eq(bool(h), bool(d), "bool")
    eq(sorted(h), sorted(d), "iter")
    eq(list(h.keys()), list(h), "keys-order")
    eq(len(h.keys()), len(d), "keys-len")
    eq(dict(h.items()), {k: vs[0] for k, vs in d.items()}, "items")
    eq([k for k, _ in h.items()], list(h), "items-order")
    eq(list(h.values()), [v for _, v in h.items()], "values")
    eq(len(h.items()), len(d), "items-len")
    eq(dict(h), {k: vs[0] for k, vs in d.items()}, "dict")
    allp = list(h.allitems())
    eq(sorted(allp), sorted(m.pairs()), "allitems")
    eq(len(h.allitems()), len(m.pairs()), "allitems-len")
    eq(bool(h.allitems()), bool(m.pairs()), "allitems-bool")
    for k, vs in d.items():
        eq([v for n, v in allp if n == k], vs, "allitems-value-order")
        eq(h[k], vs[0], "getitem")
    names = {n.lower() for n in NAMES}
    for n in NAMES:
        k = n.lower()
        eq(n in h, k in d, "contains")
        eq(list(h.getall(n)), d.get(k, []), "getall")
        eq(h.get(n), d[k][0] if k in d else None, "get")
        eq(h.get(n, "dflt"), d[k][0] if k in d else "dflt", "get-default")
        if k not in d:
            try:
                v = h[n]
            except KeyError:
                pass
            else:
                raise Violation("getitem-missing", f"after {when}: {n!r} -> {v!r}")
    check(set(d) <= names | {"kw"}, "model", "")
    for k, v in m.pairs():
        check((k, v) in h.allitems(), "allitems-contains", lambda: f"after {when}: {(k, v)} not in {allp}")
    for p in [("a", "never"), ("nope", "1"), "a", None, ("a",), 1]:
        check(p not in h.allitems(), "allitems-contains", lambda: f"after {when}: {p!r} in {allp}")
    for bad in (None, 1, b"a", ("a",)):
        check(bad not in h, "contains-non-string", repr(bad))
    for s in (repr(h), str(h), f"{h}"):
        for k, v in m.pairs():
            check(repr(k)[1:-1] in s and repr(v)[1:-1] in s, "repr", lambda: f"{s} lacks {(k, v)}")
    repr(h.allitems())
    repr(h.items())
    check(h == h, "self-equality")
    again = Headers(list(h.allitems()))
    check(h == again and not (h != again), "copy-equality", lambda: f"{h!r} vs {again!r}")
    eq(sorted(again.allitems()), sorted(m.pairs()), "copy-contents")
    again.add("a", "later")
    eq(list(h.getall("a")), d.get("a", []), "copy-independence")


def apply(h: Headers, m: Model, op: tuple) -> Headers:
    k = op[1].lower() if len(op) > 1 and isinstance(op[1], str) else ""
    match op[0]:
        case "set":
            h[op[1]] = op[2]
            m.set(op[1], op[2])
        case "add":
            h.add(op[1], op[2])
            m.add(op[1], op[2])
        case "add-many":
            for i in range(op[2]):
                h.add(op[1], str(i))
                m.add(op[1], str(i))
        case "del":
            try:
                del h[op[1]]
                check(k in m.d, "del-missing", repr(op))
                del m.d[k]
            except KeyError:
                check(k not in m.d, "del-present", repr(op))
        case "pop":
            try:
                v = h.pop(op[1])
                check(k in m.d and v == m.d[k][0], "pop", lambda: f"{op} -> {v!r} model {m.d}")
                del m.d[k]
            except KeyError:
                check(k not in m.d, "pop-present", repr(op))
        case "popd":
            v = h.pop(op[1], op[2])
            check(v == (m.d[k][0] if k in m.d else op[2]), "pop-default", lambda: f"{op} -> {v!r} model {m.d}")
            m.d.pop(k, None)
        case "popitem":
            try:
                kk, v = h.popitem()
                check(kk in m.d and m.d[kk][0] == v, "popitem", lambda: f"{(kk, v)} model {m.d}")
                del m.d[kk]
            except KeyError:
                check(not m.d, "popitem-nonempty", "")
        case "setdefault":
            v = h.setdefault(op[1], op[2])
            if k not in m.d:
                m.set(op[1], op[2])
            check(v == m.d[k][0], "setdefault", lambda: f"{op} -> {v!r} model {m.d}")
        case "update-dict":
            h.update(dict(op[1]))
            for a, b in dict(op[1]).items():
                m.set(a, b)
        case "update-pairs":
            h.update(op[1])
            for a, b in op[1]:
                m.set(a, b)
        case "update-headers":
            other = Headers(op[1])
            h.update(other)
            for a in other:
                m.set(a, other[a])
        case "update-kw":
            h.update(kw=op[1])
            m.set("kw", op[1])
        case "clear":
            h.clear()
            m.d.clear()
        case "copy":
            how = op[1]
            if how == "allitems-list":
                return Headers(list(h.allitems()))
            if how == "allitems-tuple":
                return Headers(tuple(h.allitems()))
            if how == "generator":
                return Headers([(a, b) for a, b in h.allitems()])
            if how == "headers":
                return Headers(h)
            if how == "dict":
                n = Headers(dict(h))
                for name in list(m.d):
                    m.d[name] = m.d[name][:1]
                return n
            if how == "deepcopy":
                return copy.deepcopy(h)
            if how == "pickle":
                return pickle.loads(pickle.dumps(h))
            return h
    return h


def strategy() -> st.SearchStrategy:
    return st.fixed_dictionaries({"init": INIT, "ops": mostly(7, st.lists(OP, max_size=14), st.lists(OP, min_size=15, max_size=60))})


def test(c: dict, rec) -> None:
    h, m = build(c["init"])
    observe(h, m, f"init {c['init']}")
    multi = any(len(v) > 1 for v in m.d.values())
    frozen: list[tuple[Headers, Model]] = []
    seen_names: set[str] = set()
    reuse = False
    for op in c["ops"]:
        if op[0] == "fork":
            # an independent copy must keep its contents while the original changes
            frozen.append((Headers(h), m.clone()))
            continue
        h = apply(h, m, op)
        observe(h, m, repr(op))
        multi |= any(len(v) > 1 for v in m.d.values())
        if len(op) > 1 and isinstance(op[1], str) and op[0] != "copy":
            reuse |= op[1] not in seen_names and op[1].lower() in {x.lower() for x in seen_names}
            seen_names.add(op[1])
        rec.label(op[0])
    for fh, fm in frozen:
        observe(fh, fm, "operations on the original")
    if len(c["ops"]) >= 4 and (multi or reuse):
        rec.nontrivial("multi" if multi else "case")


PARTS = [Part("container", strategy, test, quick=6000, shards=4)]
