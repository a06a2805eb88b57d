"""Virtual time. Installed before the library is imported, so that the library, asyncio timers
and the harness share one clock that only moves when nothing else can run."""

from __future__ import annotations

import asyncio
import contextvars
import selectors
import time
from typing import Any

real_monotonic = time.monotonic
real_time = time.time


class _Clock:
    active = False
    now = 0.0


CLOCK = _Clock()


def _monotonic() -> float:
    return CLOCK.now if CLOCK.active else real_monotonic()


def install() -> None:
    time.monotonic = _monotonic  # type: ignore[assignment]
    # gzip writes the wall clock into its output; a fixed one makes byte comparisons possible.
    time.time = lambda: 1_700_000_000.0  # type: ignore[assignment]


class Deadlock(BaseException):
    """Every task waits and no timer is pending: nothing can ever happen again."""


class _Selector(selectors.SelectSelector):
    def select(self, timeout: float | None = None) -> Any:
        ev = super().select(0)
        if ev:
            return ev
        if timeout is None:
            raise Deadlock
        CLOCK.now += timeout
        return []


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self) -> None:
        super().__init__(_Selector())
        self.unhandled: list[dict] = []
        self.set_exception_handler(lambda _l, c: self.unhandled.append(c))

    def time(self) -> float:
        return CLOCK.now


class Outcome:
    def __init__(self) -> None:
        self.value: Any = None
        self.deadlock = False
        self.leaked: list[str] = []
        self.unhandled: list[dict] = []
        self.elapsed = 0.0


def run(coro_fn: Any, *, check_deadlock: bool = True) -> Outcome:
    """Runs coro_fn() on a fresh virtual-time loop in a fresh context."""
    from .core import Violation

    out = Outcome()
    loop = VLoop()
    nested = CLOCK.active
    if not nested:
        CLOCK.active = True
        CLOCK.now = 1000.0
    t0 = CLOCK.now
    try:
        asyncio.set_event_loop(None)
        ctx = contextvars.Context()
        try:
            task = ctx.run(lambda: loop.create_task(coro_fn()))
            out.value = loop.run_until_complete(task)
        except Deadlock:
            out.deadlock = True
        out.elapsed = CLOCK.now - t0
        # settle: give scheduled finalizers a chance, then see what is still pending
        try:
            for _ in range(5):
                loop.run_until_complete(asyncio.sleep(0))
        except Deadlock:
            pass
        left = [t for t in asyncio.all_tasks(loop) if not t.done()]
        if any("async_generator" in type(t.get_coro()).__name__ for t in left):
            # garbage collection has just finalized a generator
            try:
                for _ in range(5):
                    loop.run_until_complete(asyncio.sleep(0))
            except Deadlock:
                pass
            left = [t for t in left if not t.done()]
        out.leaked = [repr(t.get_coro()) for t in left]
        for t in left:
            t.cancel()
        if left:
            try:
                loop.run_until_complete(asyncio.gather(*left, return_exceptions=True))
            except BaseException:  # noqa: BLE001
                pass
        try:
            loop.run_until_complete(loop.shutdown_asyncgens())
            # garbage collection may have finalized generators meanwhile, which takes tasks
            for _ in range(10):
                loop.run_until_complete(asyncio.sleep(0))
        except BaseException:  # noqa: BLE001
            pass
        out.unhandled = loop.unhandled
    finally:
        loop.close()
        if not nested:
            CLOCK.active = False
    if out.deadlock and check_deadlock:
        raise Violation("deadlock", "all tasks are blocked forever")
    return out


class frozen:
    """Synchronous code under the virtual clock; it only moves by advance()."""

    def __enter__(self) -> "frozen":
        self._nested = CLOCK.active
        if not self._nested:
            CLOCK.active = True
            CLOCK.now = 1000.0
        return self

    def __exit__(self, *a: Any) -> None:
        if not self._nested:
            CLOCK.active = False


def advance(seconds: float) -> None:
    assert CLOCK.active
    CLOCK.now += seconds
