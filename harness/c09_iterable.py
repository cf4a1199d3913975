import asyncio
import gc
import time

from symx.api import *

import aiomisc
from aiomisc import IteratorWrapper, ThreadPoolExecutor
from aiomisc.iterator_wrapper import ChannelClosed, FromThreadChannel

BOUNDS = {
    "quick": "0..3 items, size limit 0..2, producer pauses of 0, 0.5, 3 s "
             "and consumer pauses of 0, 0.4, 2 s in every combination, the end, failure and close at any position; "
             "one preemption at any line of iterator_wrapper.py, any "
             "continuation whenever a thread blocks or the consumer polls",
    "thorough": "4 items, two preemptions",
}
ASSUMPTIONS = ["threads run in lines of the module under test and primitive "
               "operations",
               "polling lasts until something else can happen"]
OUTSIDE = ["pools shut down under a running iterator",
           "two consumers of one iterator"]


class Stop(BaseException):
    pass


class Source:
    """an iterable whose steps are recorded"""

    def __init__(self, n, end, pauses=False, infinite=False, catches=False):
        self.n = n
        self.end = end
        self.pauses = pauses
        self.infinite = infinite
        self.items = []
        self.consumed = 0
        self.started = 0
        self.cleaned = 0
        self.ahead = 0
        self.in_thread = []
        self.limit = None
        self.slack = 0      # received, not yet counted as consumed
        self.exc = {"raise": Err("gen"), "base": Stop(),
                    "cancelled": asyncio.CancelledError()}.get(end)

    def step(self, i):
        import threading
        check(threading.current_thread() is not threading.main_thread(),
              "runs-in-a-thread")
        check(i == len(self.items), "not-restarted")
        if self.pauses:
            d = pick("pause", (0, 0.5, 3))
            if bool(d > 0):
                time.sleep(d)
        item = (i, object()) if i != 1 else None
        self.items.append(item)
        if self.limit:
            check(len(self.items) - self.consumed <= self.limit + 1 + self.slack,
                  "at-most-the-limit-ahead")
        return item

    def gen(self, *a, **k):
        check(a == ("arg",) and k == {"key": 1}, "its-arguments")
        self.started += 1
        check(self.started == 1, "runs-once")
        try:
            i = 0
            while self.infinite or i < self.n:
                yield self.step(i)
                i += 1
            if self.exc is not None:
                raise self.exc
        finally:
            self.cleaned += 1

    def lst(self, *a, **k):
        src = self

        class It:
            i = 0

            def __iter__(self):
                return self

            def __next__(self):
                if not src.infinite and self.i >= src.n:
                    src.cleaned = 1
                    if src.exc is not None:
                        raise src.exc
                    raise StopIteration
                self.i += 1
                return src.step(self.i - 1)
        return It()


def make(src, kind, how, limit):
    func = src.gen if kind == "gen" else src.lst
    src.limit = limit
    args, kw = ("arg",), {"key": 1}

    def f(*a, **k):
        # it ends although somebody else refers to it
        src.held = func(*a, **k)
        return src.held

    if how == "iterable":
        return aiomisc.threaded_iterable(max_size=limit)(f)(*args, **kw)
    if how == "iterable-plain":
        return aiomisc.threaded_iterable(f)(*args, **kw)
    if how == "separate":
        return aiomisc.threaded_iterable_separate(max_size=limit)(f)(
            *args, **kw)
    if how == "threaded":
        def g(*a, **k):
            yield from func(*a, **k)
        return aiomisc.threaded(g)(*args, **kw)
    if how == "wrapper":
        return IteratorWrapper(lambda: f(*args, **kw), max_size=limit)
    raise AssertionError(how)


def start(workers=1):
    loop = asyncio.get_running_loop()
    loop.spin_limit = 3
    pool = ThreadPoolExecutor(workers)
    loop.set_default_executor(pool)
    return pool


async def finish(pool, src, wrapper=None):
    check(src.cleaned <= 1, "cleanup-once")
    pool.shutdown(wait=False)
    await asyncio.sleep(1)
    check(all(r.done for r in sim().recs[1:]), "thread-ends")


def whole(n, limit, how="iterable", kind="gen", ends=("end", "raise"),
          pauses=False, K=0, slow=False, again=False):
    async def main():
        pool = start(2 if again else 1)
        await asyncio.sleep(1)
        threads(preempt=K, lines=("iterator_wrapper.py",) if K else None,
                free_choice=True)
        src = Source(n, pick("end", ends) if len(ends) > 1 else ends[0],
                     pauses=pauses)
        src.slack = 1 if K else 0
        it = make(src, kind, how, limit)
        got = []
        err = None
        ended = False
        if how == "separate" and choose("busy", 2):
            # the pool is of no concern
            pool.submit(time.sleep, 100000)
            patience = 200000
        else:
            patience = 0
        ait = it.__aiter__()
        also = it.__aiter__() if again else None
        for _ in range(n + 1):
            if slow:
                d = pick("think", (0, 0.4, 2))
                if bool(d > 0):
                    await asyncio.sleep(d)
            try:
                item = await ait.__anext__()
            except StopAsyncIteration:
                ended = True
                break
            except BaseException as e:
                if sim_abort():
                    raise
                err = e
                break
            got.append(item)
            src.consumed += 1
            check(len(got) <= len(src.items) and
                  got[-1] is src.items[len(got) - 1], "same-items-in-order")
        check(len(got) == n, "every-item")
        if src.exc is not None:
            check(err is src.exc, "the-generators-exception")
        else:
            check(ended, "ends")
        # ended for good
        kindr, v = await outcome(ait.__anext__())
        check(isinstance(v, StopAsyncIteration), "stays-ended")
        check(src.cleaned == 1, "generator-finished")
        await asyncio.wait_for(it.close(), 30)
        check(it.closed, "closed")
        check(now() < 100000, "not-delayed-by-others")
        await asyncio.sleep(patience)
        await finish(pool, src)
    return run(main())


def sim_abort():
    from symx.core import ENGINE
    return ENGINE.abort is not None


def early(n, limit, way, how="iterable", kind="gen", infinite=True, K=0,
          pauses=False, slow=False, take=None):
    async def main():
        pool = start()
        await asyncio.sleep(1)
        threads(preempt=K, lines=("iterator_wrapper.py",) if K else None,
                free_choice=K == 0)
        src = Source(n, "end", pauses=pauses, infinite=infinite)
        it = make(src, kind, how, limit)
        src.slack = 1 if K else 0
        got = []
        want = choose("take", n + 1) if take is None else take

        async def consume(ait):
            while len(got) < want:
                try:
                    got.append(await ait.__anext__())
                except StopAsyncIteration:
                    fail("ends-too-early")
                src.consumed += 1
                check(got[-1] is src.items[len(got) - 1],
                      "same-items-in-order")

        async def pause():
            if slow:
                d = pick("think", (0, 0.4, 2))
                if bool(d > 0):
                    await asyncio.sleep(d)

        async def scenario():
            if way == "close":
                ait = it.__aiter__()
                await consume(ait)
                await pause()
                await it.close()
                at = len(src.items)
                check(src.cleaned == 1 or src.started == 0 or kind != "gen",
                      "cleanup-before-the-wait-ends")
                # nothing more is produced
                await asyncio.sleep(1)
                check(len(src.items) == at, "stopped")
            elif way == "context":
                async with it as x:
                    ait = x.__aiter__()
                    await consume(ait)
                    await pause()
                check(src.cleaned == 1 or src.started == 0 or kind != "gen",
                      "cleanup-before-the-wait-ends")
            elif way == "break-in-context":
                async with it as x:
                    async for item in x:
                        got.append(item)
                        src.consumed += 1
                        if len(got) > want:
                            break
                check(src.cleaned == 1 or kind != "gen",
                      "cleanup-before-the-wait-ends")
            elif way == "error-in-context":
                try:
                    async with it as x:
                        ait = x.__aiter__()
                        await consume(ait)
                        raise Err("consumer")
                except Err as e:
                    check(e.tag == "consumer", "error-passes")
                else:
                    fail("error-passes")
                check(src.cleaned == 1 or src.started == 0 or kind != "gen",
                      "cleanup-before-the-wait-ends")
            elif way == "drop":
                ait = it.__aiter__()
                await consume(ait)
                await pause()
                del ait
                await asyncio.sleep(5)
            elif way == "break":
                async for item in it:
                    got.append(item)
                    src.consumed += 1
                    if len(got) > want:
                        break
                await asyncio.sleep(5)
            elif way == "never-started":
                if choose("ctx", 2):
                    async with it:
                        pass
                else:
                    await it.close()
                check(src.started == 0, "not-started")
            elif way == "cancel":
                async def body():
                    async with it as x:
                        await consume(x.__aiter__())
                        await asyncio.sleep(1000)
                task = asyncio.ensure_future(body())
                C = sym_real("cancel_at", 0, 50)
                if bool(C > 0):
                    await asyncio.sleep(C)
                task.cancel()
                k, v = await outcome(task)
                check(k == "cancelled", "cancelled")
                check(src.cleaned == src.started or kind != "gen",
                      "cleanup-before-the-wait-ends")

        src_cap(src, n + limit + 3)
        t0 = now()
        try:
            await asyncio.wait_for(scenario(), 5000)
        except asyncio.TimeoutError:
            fail("waiting-for-the-close-ends")
        check(src.cleaned == src.started or kind != "gen", "cleanup-runs")
        await finish(pool, src)
    return run(main())


def src_cap(src, cap):
    """an infinite generator does not run away within one slice: it pauses"""
    step = src.step

    def capped(i):
        if i >= cap:
            time.sleep(1)
        assume(i < cap + 12)
        return step(i)
    src.step = capped


def channel(n, limit, K):
    """the channel itself: a thread puts, the loop gets"""
    async def main():
        import threading
        threads(preempt=K, lines=("iterator_wrapper.py",), free_choice=True)
        loop = asyncio.get_running_loop()
        loop.spin_limit = 3
        ch = FromThreadChannel(maxsize=limit)

        def produce():
            with ch:
                for i in range(n):
                    ch.put(i)
        t = threading.Thread(target=produce, daemon=True)
        t.start()
        got = []
        try:
            while True:
                got.append(await asyncio.wait_for(ch.get(), 100))
        except ChannelClosed:
            pass
        check(got == list(range(n)), "every-item")
        try:
            ch.put(0)
        except ChannelClosed:
            pass
        else:
            fail("closed-channel-refuses")
    return run(main())


def scenarios(tier):
    out = []
    for limit in (0, 1, 2):
        out += [
            Scenario("whole-l%d" % limit, whole, dict(
                n=3, limit=limit, ends=("end", "raise"))),
            Scenario("pauses-l%d" % limit, whole, dict(
                n=2, limit=limit, pauses=True, slow=True)),
            Scenario("race-l%d" % limit, whole, dict(
                n=2, limit=limit, K=1)),
            Scenario("race-empty-l%d" % limit, whole, dict(
                n=0, limit=limit, K=1)),
        ]
        for way in ("close", "context", "break-in-context", "drop", "break",
                    "error-in-context", "cancel"):
            out.append(Scenario("%s-l%d" % (way, limit), early, dict(
                n=2, limit=limit, way=way)))
        for way in ("close", "drop"):
            out.append(Scenario("race-%s-l%d" % (way, limit), early, dict(
                n=1, limit=limit, way=way, K=1)))
            out.append(Scenario("finite-%s-l%d" % (way, limit), early, dict(
                n=2, limit=limit, way=way, infinite=False, slow=True)))
        out.append(Scenario("separate-close-l%d" % limit, early, dict(
            n=1, limit=limit, way="close", how="separate")))
        out.append(Scenario("never-started-l%d" % limit, early, dict(
            n=1, limit=limit, way="never-started")))
        out.append(Scenario("again-l%d" % limit, whole, dict(
            n=2, limit=limit, again=True)))
        out.append(Scenario("list-l%d" % limit, whole, dict(
            n=2, limit=limit, kind="list")))
        out.append(Scenario("list-close-l%d" % limit, early, dict(
            n=1, limit=limit, kind="list", way="close")))
        out.append(Scenario("channel-l%d" % limit, channel, dict(
            n=2, limit=limit, K=1)))
    for how in ("iterable-plain", "separate", "threaded", "wrapper"):
        out.append(Scenario("how-" + how, whole, dict(
            n=2, limit=0, how=how,
            ends=("end", "raise", "base", "cancelled"))))
    if tier == "thorough":
        for limit in (0, 1, 2):
            out += [
                Scenario("whole4-l%d" % limit, whole, dict(
                    n=4, limit=limit)),
                Scenario("pauses3-l%d" % limit, whole, dict(
                    n=3, limit=limit, pauses=True, slow=True)),
                Scenario("race2-l%d" % limit, whole, dict(
                    n=2, limit=limit, K=2)),
                Scenario("race2-close-l%d" % limit, early, dict(
                    n=1, limit=limit, way="close", K=2)),
                Scenario("race2-channel-l%d" % limit, channel, dict(
                    n=2, limit=limit, K=2)),
            ]
    return out
