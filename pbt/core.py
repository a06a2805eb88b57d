"""Generated-input search engine: runs the parts of a property in worker processes, shrinks
failures, writes replay files and evidence."""

from __future__ import annotations

import argparse
import asyncio
import base64
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable

from .vclock import install, real_monotonic

install()  # before anything imports the library
monotonic = real_monotonic

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(HERE, "known_findings.json")


class Violation(BaseException):
    """The property does not hold on this case. `sig` names the oracle clause that failed.

    Not an Exception: oracles run inside transports and handlers called by the library, whose
    error handling must not swallow them. Those that get lost anyway are kept in PENDING."""

    def __init__(self, sig: str, msg: str = "") -> None:
        super().__init__(f"{sig}: {msg}" if msg else sig)
        self.sig = sig
        PENDING.append(self)


PENDING: list[Violation] = []


class CaseFailed(Exception):
    """What Hypothesis sees and shrinks."""


class CaseHang(BaseException):
    pass


class _StopShrink(BaseException):
    pass


def mostly(n: int, usual: Any, rare: Any) -> Any:
    """A strategy for the usual n times out of n + 1. (one_of drops repeated alternatives.)"""
    from hypothesis import strategies as st

    return st.sampled_from([usual] * n + [rare]).flatmap(lambda s: s)


def check(cond: object, sig: str, msg: object = "") -> None:
    if not cond:
        raise Violation(sig, msg() if callable(msg) else str(msg))


# ---------------------------------------------------------------------------------------
# plain-data cases <-> JSON


def to_jsonable(v: Any) -> Any:
    if isinstance(v, (bytes, bytearray)):
        return {"$b": base64.b64encode(bytes(v)).decode()}
    if isinstance(v, dict):
        return {"$d": [[to_jsonable(k), to_jsonable(x)] for k, x in v.items()]}
    if isinstance(v, tuple):
        return {"$t": [to_jsonable(x) for x in v]}
    if isinstance(v, list):
        return [to_jsonable(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return {"$s": sorted(to_jsonable(x) for x in v)}
    if isinstance(v, float):
        return {"$f": v.hex()} if v == v and abs(v) != float("inf") else {"$f": repr(v)}
    if v is None or isinstance(v, (str, int, bool)):
        return v
    raise TypeError(f"case contains {type(v)}")


def from_jsonable(v: Any) -> Any:
    if isinstance(v, list):
        return [from_jsonable(x) for x in v]
    if isinstance(v, dict):
        if "$b" in v:
            return base64.b64decode(v["$b"])
        if "$d" in v:
            return {from_jsonable(k): from_jsonable(x) for k, x in v["$d"]}
        if "$t" in v:
            return tuple(from_jsonable(x) for x in v["$t"])
        if "$s" in v:
            return set(from_jsonable(x) for x in v["$s"])
        if "$f" in v:
            s = v["$f"]
            return float(s) if s in ("nan", "inf", "-inf") else float.fromhex(s)
    return v


def dumps(case: Any) -> str:
    return json.dumps(to_jsonable(case), sort_keys=True, ensure_ascii=True)


def brief(case: Any, limit: int = 600) -> str:
    s = repr(case)
    return s if len(s) <= limit else s[:limit] + f"...<{len(s)} chars>"


# ---------------------------------------------------------------------------------------


@dataclass
class Part:
    """One generated-input search of a property."""

    name: str
    strategy: Callable[[], Any]  # builds the hypothesis strategy (plain-data cases)
    test: Callable[[Any, "Rec"], None]
    quick: int
    thorough: int | None = None
    shards: int = 1
    case_cpu_s: float = 30.0
    explicit: list[Any] = field(default_factory=list)


class Rec:
    """Per-worker statistics; a case calls rec.nontrivial()/rec.label() while it runs."""

    def __init__(self) -> None:
        self.evaluations = 0
        self.labels: dict[str, int] = {}
        self.nontrivial_hashes: set[str] = set()
        self.samples: list[str] = []
        self._sampled: set[str] = set()
        self._nt = False
        self._why = ""
        self.tolerated: dict[str, int] = {}
        self.extra_evals = 0

    def label(self, name: str) -> None:
        self.labels[name] = self.labels.get(name, 0) + 1

    def nontrivial(self, why: str = "") -> None:
        self._nt = True
        if why:
            self._why = why

    def evals(self, n: int) -> None:
        """The case compared n additional executions of the code (metamorphic variants)."""
        self.extra_evals += n

    def begin(self) -> None:
        self._nt = False
        self._why = ""

    def end(self, case: Any) -> None:
        self.evaluations += 1
        if self._nt:
            h = hashlib.blake2b(dumps(case).encode(), digest_size=8).hexdigest()
            if h not in self.nontrivial_hashes:
                self.nontrivial_hashes.add(h)
                if self._why not in self._sampled or len(self.samples) < 2:
                    if len(self.samples) < 6:
                        self._sampled.add(self._why)
                        self.samples.append(f"[{self._why}] {brief(case, 400)}")


def load_known(pid: str) -> list[dict]:
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [e for e in data.get("findings", []) if e["property"] == pid and e["status"] == "known"]


def _innermost_repo_frame(exc: BaseException) -> str | None:
    res = None
    seen = set()
    stack = [exc]
    while stack:
        e = stack.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        for fr in traceback.extract_tb(e.__traceback__):
            if fr.filename.startswith(REPO + os.sep):
                res = f"{fr.filename}:{fr.lineno} in {fr.name}"
        stack += [e.__cause__, e.__context__]
        if isinstance(e, BaseExceptionGroup):
            stack += list(e.exceptions)
    return res


def _alarm(_sig: int, _frm: Any) -> None:
    raise CaseHang


def run_case(part: Part, case: Any, rec: Rec) -> None:
    """Runs one case; raises Violation if the property does not hold on it."""
    rec.begin()
    PENDING.clear()
    signal.setitimer(signal.ITIMER_PROF, part.case_cpu_s)
    signal.setitimer(signal.ITIMER_REAL, max(90.0, part.case_cpu_s * 3))
    try:
        part.test(case, rec)
        if PENDING:
            raise PENDING[0]
    except Violation:
        raise
    except CaseHang as e:
        raise Violation(
            "hang", f"case did not finish ({part.case_cpu_s}s CPU / 90s blocked)"
        ) from e
    except (asyncio.CancelledError, GeneratorExit) as e:
        raise Violation(
            "caller-interrupted", f"{type(e).__name__} reached code that nobody cancelled"
        ) from e
    except Exception as e:
        where = _innermost_repo_frame(e)
        if where:
            raise Violation(
                "unexpected-exception", f"{type(e).__name__}: {e} (raised through {where})"
            ) from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    rec.end(case)


def _worker(
    mod_name: str, part_idx: int, shard: int, seed: int, tier: str, deadline: float, conn: Any
) -> None:
    out: dict[str, Any] = {"part": None}
    try:
        signal.signal(signal.SIGPROF, _alarm)
        signal.signal(signal.SIGALRM, _alarm)
        import gc

        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        mod = importlib.import_module(mod_name)
        part: Part = mod.PARTS[part_idx]
        out["part"] = part.name
        rec = Rec()
        n = part.quick if tier == "quick" else (part.thorough or part.quick * 20)
        n = max(1, n // part.shards)
        known = {e["signature"]: e for e in load_known(mod.PID) if e.get("part") == part.name}

        best: dict[str, Any] = {}
        state = {"first_fail": 0.0, "stopped": False}

        def record(case: Any, v: Violation, tb: str) -> None:
            size = len(dumps(case))
            if not best or size <= best["size"]:
                best.update(case=to_jsonable(case), msg=str(v), sig=v.sig, size=size, tb=tb)

        def guarded(case: Any) -> None:
            try:
                run_case(part, case, rec)
            except Violation as v:
                if v.sig in known:
                    rec.tolerated[v.sig] = rec.tolerated.get(v.sig, 0) + 1
                    rec.end(case)
                    return
                record(case, v, traceback.format_exc(limit=-12))
                raise

        for case in part.explicit if shard == 0 else []:
            guarded(case)

        def body(case: Any) -> None:
            now = monotonic()
            if state["first_fail"]:
                if now - state["first_fail"] > 40:
                    raise _StopShrink
            elif now > deadline:
                state["stopped"] = True
                return
            try:
                guarded(case)
            except Violation as v:
                if not state["first_fail"]:
                    state["first_fail"] = monotonic()
                raise CaseFailed(v.sig) from None

        strat = part.strategy()
        run = given(strat)(body)
        run = settings(
            max_examples=n,
            database=None,
            deadline=None,
            report_multiple_bugs=False,
            print_blob=False,
            phases=[Phase.generate, Phase.shrink],
            suppress_health_check=list(HealthCheck),
        )(run)
        run = hypothesis.seed(seed * 1_000_003 + part_idx * 1009 + shard)(run)
        gc.collect()
        try:
            run()
        except (CaseFailed, _StopShrink):
            pass
        except hypothesis.errors.FlakyFailure:
            if not best:
                raise
        except BaseException:
            if not best:
                raise
        out.update(
            evaluations=rec.evaluations + rec.extra_evals,
            cases=rec.evaluations,
            requested=n,
            nontrivial=sorted(rec.nontrivial_hashes),
            labels=rec.labels,
            samples=rec.samples,
            tolerated=rec.tolerated,
            stopped=state["stopped"],
            failure=best or None,
        )
    except Violation:
        out.update(
            evaluations=rec.evaluations + rec.extra_evals,
            cases=rec.evaluations,
            requested=n,
            nontrivial=sorted(rec.nontrivial_hashes),
            labels=rec.labels,
            samples=rec.samples,
            tolerated=rec.tolerated,
            stopped=False,
            failure=best or None,
        )
    except BaseException:
        out["harness_error"] = traceback.format_exc()
    try:
        conn.send(out)
        conn.close()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)


def _run_parts(mod: Any, seed: int, tier: str, budget: float, only: str | None) -> list[dict]:
    ctx = mp.get_context("fork")
    jobs = [
        (i, s)
        for i, p in enumerate(mod.PARTS)
        if only is None or p.name == only
        for s in range(p.shards)
    ]
    maxproc = min(8, os.cpu_count() or 8)
    pending = list(jobs)
    running: list[tuple[Any, Any, tuple[int, int], float]] = []
    results: list[dict] = []
    start = monotonic()
    waves = max(1, -(-len(jobs) // maxproc))
    per_job = budget / waves
    while pending or running:
        while pending and len(running) < maxproc:
            i, s = pending.pop(0)
            r, w = ctx.Pipe(duplex=False)
            now = monotonic()
            dl = max(now + per_job * 0.5, min(now + per_job, start + budget))
            p = ctx.Process(target=_worker, args=(mod.__name__, i, s, seed, tier, dl, w))
            p.start()
            w.close()
            running.append((p, r, (i, s), dl))
        from multiprocessing.connection import wait

        wait([r for _, r, _, _ in running], timeout=1.0)
        still = []
        for p, r, job, dl in running:
            if r.poll():
                try:
                    results.append(r.recv())
                except EOFError:
                    results.append(
                        {"part": mod.PARTS[job[0]].name, "harness_error": "worker died"}
                    )
                p.join(5)
                if p.is_alive():
                    p.kill()
                continue
            if monotonic() > dl + 300:
                p.kill()
                results.append(
                    {"part": mod.PARTS[job[0]].name, "harness_error": "worker overran its budget"}
                )
                continue
            still.append((p, r, job, dl))
        running = still
    return results


def _replay(mod: Any, path: str) -> int:
    with open(path) as f:
        data = json.load(f)
    part = next(p for p in mod.PARTS if p.name == data["part"])
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    case = from_jsonable(data["case"])
    print(f"replaying {mod.PID}/{part.name}: {brief(case, 4000)}")
    try:
        run_case(part, case, Rec())
    except Violation as v:
        traceback.print_exc(limit=-12)
        print(f"violated: {v}")
        print(f"VIOLATION property={mod.PID} replay={path}")
        return 1
    print("held on this case")
    return 0


def main(argv: list[str]) -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--labels", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property.upper()
    t0 = monotonic()
    try:
        mod = importlib.import_module(f"pbt.props.{pid.lower()}")
    except Exception:
        traceback.print_exc()
        print(f"harness error: cannot load {pid}")
        return 2
    if a.replay:
        return _replay(mod, a.replay)

    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    budget = a.budget or (getattr(mod, "QUICK_BUDGET", 90.0) if tier == "quick" else 780.0)

    # Known findings: replay each listed case on the current tree.
    known_lines = []
    for e in load_known(pid):
        part = next((p for p in mod.PARTS if p.name == e["part"]), None)
        if part is None:
            continue
        signal.signal(signal.SIGPROF, _alarm)
        signal.signal(signal.SIGALRM, _alarm)
        try:
            run_case(part, from_jsonable(e["case"]), Rec())
        except Violation as v:
            if v.sig == e["signature"]:
                known_lines.append(f"KNOWN-FINDING: property={pid} {e['what']}")
        except Exception:
            traceback.print_exc()

    results = _run_parts(mod, a.seed, tier, budget, a.part)

    errors = [r for r in results if r.get("harness_error")]
    failures = [r for r in results if r.get("failure")]
    labels: dict[str, dict[str, int]] = {}
    for r in results:
        d = labels.setdefault(r["part"] or "?", {})
        for k, v in r.get("labels", {}).items():
            d[k] = d.get(k, 0) + v
    nontriv: set[str] = set()
    samples: list[str] = []
    evals = 0
    for r in results:
        evals += r.get("evaluations", 0)
        nontriv |= {f"{r['part']}:{h}" for h in r.get("nontrivial", [])}
    for r in sorted(results, key=lambda r: str(r["part"])):
        for s in r.get("samples", [])[:3]:
            if len(samples) < 24:
                samples.append(f"{r['part']}: {s}")

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    violations = []
    seen_parts = set()
    for r in sorted(failures, key=lambda r: (str(r["part"]), r["failure"]["size"])):
        if r["part"] in seen_parts:
            continue
        seen_parts.add(r["part"])
        f = r["failure"]
        h = hashlib.blake2b(
            json.dumps(f["case"], sort_keys=True).encode(), digest_size=4
        ).hexdigest()
        path = os.path.join(HERE, "evidence", f"replay-{pid}-{r['part']}-{h}.json")
        with open(path, "w") as fp:
            json.dump(
                {
                    "property": pid,
                    "part": r["part"],
                    "signature": f["sig"],
                    "message": f["msg"],
                    "case": f["case"],
                },
                fp,
                indent=1,
            )
        violations.append({"part": r["part"], "message": f["msg"][:2000], "replay": path})
        print(f"--- {pid}/{r['part']}: {f['msg'][:3000]}")
        print(f["tb"][-3000:])

    wall = monotonic() - t0
    ev = {
        "property": pid,
        "tier": tier,
        "seed": a.seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(nontriv),
            "rule": mod.RULE,
            "samples": samples or ["(none)"],
            "parts": {
                r: {
                    "cases": sum(x.get("cases", 0) for x in results if x["part"] == r),
                    "requested": sum(x.get("requested", 0) for x in results if x["part"] == r),
                    "stopped_by_budget": any(x.get("stopped") for x in results if x["part"] == r),
                    "labels": dict(sorted(labels.get(r or "?", {}).items())),
                }
                for r in sorted({x["part"] for x in results if x["part"]})
            },
        },
        "wall_s": round(wall, 2),
        "violations": len(violations),
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
    }
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as fp:
        json.dump(ev, fp, indent=1)

    for line in known_lines:
        print(line)
    if a.labels:
        print(json.dumps(ev["coverage"]["parts"], indent=1))
    tol: dict[str, int] = {}
    for r in results:
        for k, v in r.get("tolerated", {}).items():
            tol[k] = tol.get(k, 0) + v
    print(
        f"{pid} tier={tier} seed={a.seed}: {evals} evaluations, {len(nontriv)} distinct "
        f"non-trivial, {len(violations)} violation(s), {wall:.1f}s"
        + (f", known-finding hits {tol}" if tol else "")
        + (", budget reached" if any(r.get("stopped") for r in results) else "")
    )
    if violations:
        for v in violations:
            print(f"VIOLATION property={pid} replay={v['replay']}")
        return 1
    if errors:
        for r in errors:
            print(f"harness error in {r['part']}:\n{r['harness_error']}")
        return 2
    return 0
