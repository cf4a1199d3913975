import asyncio
import threading
import time

from symx.api import *

import aiomisc
from aiomisc import ThreadPoolExecutor
from aiomisc._context_vars import EVENT_LOOP
from aiomisc.thread_pool import CoroutineWaiter

BOUNDS = {
    "quick": "1..2 threads which wait, coroutines of arbitrary length and "
             "every outcome, cancelled at an arbitrary instant; one "
             "preemption at any line of thread_pool.py",
    "thorough": "3 threads; two preemptions",
}
ASSUMPTIONS = ["threads run in lines of the module under test and primitive "
               "operations; instants are mathematical reals",
               "the loop runs until the coroutine has ended"]
OUTSIDE = ["loops which are stopped or closed while a thread waits"]


class Falsy(Exception):
    def __bool__(self):
        return False


class Base(BaseException):
    pass


WAYS = ["wait", "wait-current", "sync_wait", "sync_wait-current",
        "sync_await", "sync_await-call", "waiter"]


class Work:
    def __init__(self, i, kind, d=None, napping=True):
        self.i = i
        self.kind = kind
        self.d = d
        self.value = {"value": object(), "none": None, "false": False}.get(
            kind)
        self.exc = {"error": Err("coro"), "falsy": Falsy(), "base": Base(),
                    "self-cancel": asyncio.CancelledError()}.get(kind)
        self.runs = 0
        self.ended = None
        self.task = None
        self.result = None

    async def coro(self, *args, **kwargs):
        self.runs += 1
        check(self.runs == 1, "runs-once")
        check(threading.current_thread() is threading.main_thread(),
              "on-the-loop-thread")
        check(asyncio.get_running_loop() is self.loop, "on-the-given-loop")
        check(args == (self.i,) and kwargs == {"k": self.i}, "its-arguments")
        self.task = asyncio.current_task()
        try:
            if self.d is not None and bool(self.d > 0):
                await asyncio.sleep(self.d)
            if self.kind == "task":
                return await asyncio.ensure_future(self.sub())
            if self.exc is not None:
                raise self.exc
            return self.value
        finally:
            self.ended = now()

    async def sub(self):
        await asyncio.sleep(0)
        self.value = object()
        return self.value

    def in_thread(self, way):
        """waits for the coroutine"""
        check(threading.current_thread() is not threading.main_thread(),
              "harness-thread")
        loop = self.loop
        k = {"k": self.i}
        try:
            if way == "wait":
                v = aiomisc.wait_coroutine(self.coro(self.i, **k), loop)
            elif way == "wait-current":
                v = aiomisc.wait_coroutine(self.coro(self.i, **k))
            elif way == "sync_wait":
                v = aiomisc.sync_wait_coroutine(loop, self.coro, self.i, **k)
            elif way == "sync_wait-current":
                v = aiomisc.sync_wait_coroutine(None, self.coro, self.i, **k)
            elif way == "sync_await-call":
                # no coroutine function: must be called on the loop, too
                def call(*a, **kw):
                    return asyncio.get_running_loop().create_task(
                        self.coro(*a, **kw))
                v = aiomisc.sync_await(call, self.i, **k)
            elif way == "sync_await":
                v = aiomisc.sync_await(self.coro, self.i, **k)
            else:
                w = CoroutineWaiter(self.coro(self.i, **k), loop)
                w.start()
                v = w.wait()
            self.result = ("ok", v)
        except BaseException as e:
            from symx.core import ENGINE, PathEnd
            if ENGINE.abort is not None or isinstance(e, PathEnd):
                raise
            self.result = ("exc", e)
        self.returned = now()
        return self

    def verify(self, cancelled=False, timing=True):
        check(self.result is not None, "the-wait-ends")
        check(self.runs == 1 or cancelled, "runs-once")
        k, v = self.result
        if cancelled:
            check(isinstance(v, asyncio.CancelledError), "cancellation")
        elif self.exc is not None:
            if self.kind == "self-cancel":
                check(isinstance(v, asyncio.CancelledError), "cancellation")
            else:
                check(v is self.exc, "its-exception")
            check(k == "exc", "its-exception")
        else:
            check(k == "ok" and v is self.value, "its-result")
        if timing and self.ended is not None:
            check(self.returned == self.ended, "waits-exactly-until-the-end")


def waiting(n, way, kinds, cancel=False, K=0, sleeps=True, free=True):
    async def main():
        loop = asyncio.get_running_loop()
        # a loop which is given is used, whatever the current one is
        EVENT_LOOP.set(loop if "current" in way or way.startswith("sync_await")
                       else Loop())
        pool = ThreadPoolExecutor(n)
        loop.set_default_executor(pool)
        await asyncio.sleep(1)
        threads(preempt=K, lines=("thread_pool.py",) if K else None,
                free_choice=free)
        ws = []
        for i in range(n):
            ws.append(Work(i, pick("kind", kinds) if len(kinds) > 1
                           else kinds[0],
                           sym_real("d", 0) if sleeps else None))
            ws[-1].loop = loop
        futs = [loop.run_in_executor(None, w.in_thread, way) for w in ws]
        victim = None
        if cancel:
            C = sym_real("cancel_at", 0)
            if bool(C > 0):
                await asyncio.sleep(C)
            else:
                for _ in range(choose("turns", 4)):
                    await asyncio.sleep(0)
            w = ws[0]
            if w.task is not None and not w.task.done():
                if w.task.cancel():
                    cover("cancelled")
                    victim = w
        limit = 10 + smax(0.0, *[w.d for w in ws]) if sleeps else 10
        done, pend = await asyncio.wait(futs, timeout=limit)
        check(not pend, "never-waits-after-the-end")
        for w in ws:
            gone = w is victim and w.result[0] == "exc" and \
                isinstance(w.result[1], asyncio.CancelledError)
            w.verify(gone, timing=K == 0)
            if w is victim and not gone and not K:
                # it was at its end already
                check(w.d is None or not bool(w.d > 0) or
                      w.kind == "task", "cancellation")
        pool.shutdown(wait=False)
    return run(main())


def scenarios(tier):
    kinds = ["value", "none", "false", "error", "falsy", "base", "self-cancel",
             "task"]
    out = []
    for way in WAYS:
        out.append(Scenario("one-" + way, waiting, dict(
            n=1, way=way, kinds=kinds)))
        out.append(Scenario("cancel-" + way, waiting, dict(
            n=1, way=way, kinds=["value", "error", "task"], cancel=True),
            covers=("cancelled",)))
    out += [
        Scenario("two", waiting, dict(
            n=2, way="wait", kinds=["value", "error"])),
        Scenario("two-cancel", waiting, dict(
            n=2, way="sync_await", kinds=["value"], cancel=True),
            covers=("cancelled",)),
        Scenario("race", waiting, dict(
            n=1, way="wait", kinds=["value", "error", "self-cancel"], K=1,
            sleeps=False)),
        Scenario("race-two", waiting, dict(
            n=2, way="sync_await", kinds=["value"], K=1, sleeps=False,
            free=tier == "thorough")),
        Scenario("race-cancel", waiting, dict(
            n=1, way="waiter", kinds=["value"], K=1, cancel=True)),
    ]
    if tier == "thorough":
        out += [
            Scenario("three", waiting, dict(
                n=3, way="wait", kinds=["value", "error"])),
            Scenario("race2", waiting, dict(
                n=1, way="wait", kinds=["value", "error", "self-cancel"],
                K=2, sleeps=False)),
            Scenario("race2-two", waiting, dict(
                n=2, way="sync_wait", kinds=["value"], K=2, sleeps=False)),
        ]
    return out
