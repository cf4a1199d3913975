import asyncio
import contextvars
import functools
import threading
import time

from symx.api import *

import aiomisc
from aiomisc import ThreadPoolExecutor
from aiomisc.thread_pool import ThreadPoolException, run_in_new_thread

BOUNDS = {
    "quick": "pools of 1, 2 and 4 threads, <=3 jobs with arbitrary durations "
             "and outcomes, one cancelled at an arbitrary instant; shutdown "
             "at an arbitrary instant with and without waiting (limit 0.03 s, "
             "jobs <= 0.06 s); one preemption at any line of thread_pool.py "
             "for 2 jobs with cancellation or shutdown",
    "thorough": "5 jobs, two cancellations; two preemptions",
}
ASSUMPTIONS = ["threads run in lines of the module under test and primitive "
               "operations; instants are mathematical reals"]
OUTSIDE = ["jobs of a loop which was closed on a pool which lives on",
           "a cancel between the worker's last check and the call itself"]

VAR = contextvars.ContextVar("c08var", default=None)


class Falsy(Exception):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Base(BaseException):
    pass


class Quick(ThreadPoolExecutor):
    SHUTDOWN_TIMEOUT = 0.03


class Patient(ThreadPoolExecutor):
    SHUTDOWN_TIMEOUT = 0.5


OUTCOMES = {
    "value": lambda: object(),
    "none": lambda: None,
    "error": lambda: Err("job"),
    "falsy": lambda: Falsy(),
    "base": lambda: Base(),
    "cancelled": lambda: asyncio.CancelledError(),
}


class Job:
    def __init__(self, i, d, kind, mx=None, all_=None):
        self.i = i
        self.d = d
        self.kind = kind
        self.obj = OUTCOMES[kind]()
        self.begun = []
        self.ended = []
        self.ctx = []
        self.mx = mx
        self.all = all_
        self.result = None
        self.answered = None

    def __call__(self, *args, **kwargs):
        self.begun.append(now())
        self.ctx.append(VAR.get())
        check(len(self.begun) == 1, "runs-once")
        check(threading.current_thread() is not threading.main_thread(),
              "outside-the-loop-thread")
        check(args == (self.i, "a") and kwargs == {"k": self.i},
              "its-arguments")
        if self.mx is not None:
            n = sum(1 for j in self.all if j.begun and not j.ended)
            check(n <= self.mx, "at-most-max-threads")
        try:
            if self.d is not None and bool(self.d > 0):
                time.sleep(self.d)
        finally:
            self.ended.append(now())
        if isinstance(self.obj, BaseException):
            raise self.obj
        return self.obj

    def verify(self):
        """the caller got exactly the outcome"""
        k, v = self.result
        check(v is self.obj, "exactly-its-outcome")
        check(k == ("exc" if isinstance(self.obj, BaseException) else "ok"),
              "exactly-its-outcome")


async def call(job, submit):
    VAR.set("ctx%d" % job.i)
    try:
        fut = submit(job)
        job.fut = fut
        job.result = ("ok", await fut)
    except asyncio.CancelledError as e:
        if e is job.obj:
            job.result = ("exc", e)
        else:
            job.result = ("cancelled", e)
            job.answered = now()
            raise
    except BaseException as e:
        if ENGINE_ABORT():
            raise
        job.result = ("exc", e)
    job.answered = now()


def ENGINE_ABORT():
    from symx.core import ENGINE
    return ENGINE.abort is not None


def submitters(kind, pool):
    def in_executor(job):
        loop = asyncio.get_running_loop()
        return loop.run_in_executor(pool, functools.partial(
            job, job.i, "a", k=job.i))

    def submit(job):
        return pool.submit(job, job.i, "a", k=job.i)

    def threaded(job):
        asyncio.get_running_loop().set_default_executor(pool)

        @aiomisc.threaded
        def f(*a, **k):
            return job(*a, **k)
        return f(job.i, "a", k=job.i)

    def separate(job):
        @aiomisc.threaded_separate
        def f(*a, **k):
            return job(*a, **k)
        return f(job.i, "a", k=job.i)

    def new(job):
        def f(*a, **k):
            return job(*a, **k)
        return run_in_new_thread(f, args=(job.i, "a"), kwargs={"k": job.i})
    return dict(in_executor=in_executor, submit=submit, threaded=threaded,
                separate=separate, new=new)[kind]


def started_as_expected(jobs, m, cancelled):
    """earliest possible starts, FIFO"""
    free = [0.0] * m
    for j in jobs:
        if not j.begun:
            continue
        at = smin(*free) if m > 1 else free[0]
        check(j.begun[0] == at, "starts-when-a-thread-is-free")
        for k in range(m):
            if bool(free[k] == at):
                free[k] = j.ended[0]
                break


def timing(n, m, submit, kinds, cancels=0, cls=ThreadPoolExecutor):
    async def main():
        threads(free_choice=False)
        pool = None if m is None else cls(m)
        mx = m if m is not None else n
        jobs = []
        for i in range(n):
            jobs.append(Job(i, sym_real("d", 0),
                            pick("kind", kinds) if kinds else "value",
                            mx, jobs))
        sub = submitters(submit, pool)
        tasks = [asyncio.ensure_future(call(j, sub)) for j in jobs]
        # leave the order of arrival as written
        victims = {}
        for _ in range(cancels):
            v = choose("victim", n)
            if v in victims:
                assume(False)
            C = sym_real("cancel_at", 0)
            victims[v] = rec = {}

            def stop(v=v, rec=rec):
                rec["begun"] = bool(jobs[v].begun)
                rec["done"] = tasks[v].done()
                tasks[v].cancel()
            asyncio.get_running_loop().call_later(C, stop)
        await asyncio.wait(tasks)
        for t in tasks:
            if not t.cancelled():
                t.exception()
        for j in jobs:
            v = victims.get(j.i)
            if v is not None and j.result is None:
                cover("cancelled-before-submit")
                check(not j.begun, "cancelled-one-never-runs")
                continue
            if v is not None and j.result[0] == "cancelled":
                check("begun" in v, "only-cancelled-when-asked")
                continue
            check(len(j.begun) == 1, "every-job-runs")
            check(j.ctx == ["ctx%d" % j.i], "submitters-context")
            j.verify()
            check(j.answered == j.ended[0], "answered-when-it-ended")
        if m is not None:
            await asyncio.sleep(1)
            while any(j.begun and not j.ended for j in jobs):
                await asyncio.sleep(1 + smax(*[j.d for j in jobs]))
            for v, rec in victims.items():
                if rec.get("begun") is False and not rec["done"]:
                    cover("cancelled-queued")
                    check(not jobs[v].begun, "cancelled-one-never-runs")
            if submit != "new":
                started_as_expected(jobs, mx, victims)
            # and the pool is still all right
            again = Job(90, None, "value")
            await asyncio.wait_for(call(again, sub), 5)
            again.verify()
            pool.shutdown()
            await settle(3)
            check(not asyncio.get_running_loop().exceptions, "no-loop-errors")
        else:
            for j in jobs:
                if j.begun:
                    check(j.begun[0] == 0, "starts-at-once")
    return run(main())


def all_threads_ended():
    return all(r.done for r in sim().recs[1:])


def closing(n, m, how, wait=True, cls=Quick, long=False):
    async def main():
        threads(free_choice=False)
        loop = asyncio.get_running_loop()
        pool = cls(m)
        jobs = []
        for i in range(n):
            if long and not i:
                d = 5       # much longer than the limit
            else:
                d = sym_real("d", 0)
                assume(d <= 0.06)
            jobs.append(Job(i, d, "value", m, jobs))
        sub = submitters("in_executor", pool)
        tasks = [asyncio.ensure_future(call(j, sub)) for j in jobs]
        T = sym_real("shutdown_at", 0)
        assume(T <= 0.06)
        if bool(T > 0):
            await asyncio.sleep(T)
        else:
            await settle(3)
        begun = [bool(j.begun) for j in jobs]
        pend = [not t.done() for t in tasks]
        unfinished = [not j.fut.done() for j in jobs]
        t0 = now()
        if how == "default":
            loop.set_default_executor(pool)
            await loop.shutdown_default_executor()
        else:
            pool.shutdown(wait=wait)
        waited = now() - t0
        if wait:
            running = any(j.begun and not j.ended for j in jobs)
            if running:
                cover("wait-cut-off")
                check(waited >= cls.SHUTDOWN_TIMEOUT, "waits-for-running-jobs")
            check(waited <= cls.SHUTDOWN_TIMEOUT + 0.15, "waits-at-most-its-limit")
            rest = smax(0.0, *[j.ended[0] - t0 for j in jobs if j.ended])
            if not running:
                check(waited <= rest + 0.1, "no-longer-than-needed")
        else:
            check(waited == 0, "does-not-wait")
        await settle(3)
        for j, u, t in zip(jobs, unfinished, tasks):
            check(t.done(), "unfinished-calls-complete")
            if u:
                cover("unfinished")
                check(j.result[0] == "exc" and
                      isinstance(j.result[1], Exception),
                      "unfinished-calls-fail")
                check(isinstance(j.result[1], ThreadPoolException),
                      "unfinished-calls-fail")
            else:
                j.verify()
        extra = Job(80, None, "value")
        try:
            pool.submit(extra, 80, "a", k=80)
        except RuntimeError:
            pass
        else:
            fail("submitting-fails-after-shutdown")
        if choose("again", 2):
            t1 = now()
            pool.shutdown()
            pool.shutdown(wait=False)
            check(now() == t1, "may-be-repeated")
        await asyncio.sleep(6 if long else 1)
        for j, b in zip(jobs, begun):
            if not b and how != "default":
                check(not j.begun, "queued-ones-never-run")
        check(not extra.begun, "submitting-fails-after-shutdown")
        check(all_threads_ended(), "threads-end")
    return run(main())


def loop_close(n, m, given):
    """the loop goes away with its pool"""
    threads(free_choice=False)
    loop = new_loop()
    pool = Quick(m)
    loop.set_default_executor(pool)
    jobs = []
    for i in range(n):
        jobs.append(Job(i, sym_real("d", 0), "value", m, jobs))
    T = sym_real("close_at", 0)

    async def main():
        sub = submitters("threaded", pool)
        for j in jobs:
            j.task = asyncio.ensure_future(call(j, sub))
        if bool(T > 0):
            await asyncio.sleep(T)
        else:
            await settle(3)

    loop.run_until_complete(main())
    begun = [bool(j.begun) for j in jobs]
    if any(not j.fut.done() for j in jobs):
        cover("closed-with-unfinished-jobs")
    loop.close()
    time.sleep(smax(0.0, *[j.d for j in jobs]) * n + 1)
    for j, b in zip(jobs, begun):
        if not b:
            check(not j.begun, "queued-ones-never-run")
        if j.begun:
            check(bool(j.ended), "running-ones-end")
    check(all_threads_ended(), "threads-end")
    try:
        pool.submit(print)
    except RuntimeError:
        pass
    else:
        fail("submitting-fails-after-shutdown")


def abandoned(m, first):
    """callers give up, their jobs still occupy threads"""
    async def main():
        threads(free_choice=False)
        pool = Quick(m)
        sub = submitters("in_executor", pool)
        jobs = []
        for i in range(first):
            jobs.append(Job(i, pos_real("d"), "value", m, jobs))
        tasks = [asyncio.ensure_future(call(j, sub)) for j in jobs]
        given_up = choose("given_up", first + 1)
        C = pos_real("cancel_at")
        for t in tasks[:given_up]:
            canceller(t, C)
        await asyncio.sleep(C + sym_real("later", 0))
        await settle(3)
        late = Job(first, sym_real("d", 0), "value", m, jobs)
        jobs.append(late)
        occupied = sum(1 for j in jobs if j.begun and not j.ended)
        t0 = now()
        task = asyncio.ensure_future(call(late, sub))
        if occupied < m:
            cover("room")
            await asyncio.wait([task])
            check(late.begun[0] == t0, "starts-when-a-thread-is-free")
            late.verify()
        else:
            cover("no-room")
            await asyncio.wait([task])
            check(late.begun[0] == smin(*[
                j.ended[0] for j in jobs[:first] if j.begun]
                if len([j for j in jobs[:first] if j.begun]) > 1
                else [jobs[0].ended[0]] * 2), "starts-when-a-thread-is-free")
        await asyncio.wait(tasks)
        pool.shutdown(wait=False)
    return run(main())


def racing(n, m, what, K):
    """any line of any thread may be followed by any other thread"""
    async def main():
        pool = Quick(m)
        await asyncio.sleep(1)          # the threads are up
        threads(preempt=K, lines=("thread_pool.py",), free_choice=False)
        jobs = []
        for i in range(n):
            jobs.append(Job(i, None, "value", m, jobs))
        sub = submitters("submit", pool)
        tasks = [asyncio.ensure_future(call(j, sub)) for j in jobs]
        yields = choose("yields", 3)
        await asyncio.sleep(0)
        for _ in range(yields):
            await asyncio.sleep(0)
        if what == "cancel":
            tasks[0].cancel()
        elif what in ("shutdown", "shutdown-nowait"):
            pool.shutdown(wait=what == "shutdown")
            try:
                pool.submit(print)
            except RuntimeError:
                pass
            else:
                fail("submitting-fails-after-shutdown")
        await asyncio.sleep(1)
        for j, t in zip(jobs, tasks):
            check(t.done(), "every-call-ends")
            k, v = j.result
            if v is j.obj and k == "ok":
                check(len(j.begun) == 1, "every-job-runs")
                continue
            if what == "cancel" and j.i == 0:
                check(k == "cancelled", "exactly-its-outcome")
                continue
            check(what.startswith("shutdown") and
                  isinstance(v, ThreadPoolException), "exactly-its-outcome")
        if what.startswith("shutdown"):
            check(all_threads_ended(), "threads-end")
        else:
            again = Job(90, None, "value")
            await asyncio.wait_for(call(again, sub), 5)
            again.verify()
            pool.shutdown()
            await asyncio.sleep(1)
            check(all_threads_ended(), "threads-end")
    return run(main())


def refused():
    async def main():
        pool = Quick(1)
        bad = pick("what", ["none", "number", "coro-threaded",
                            "coro-separate"])

        async def coro():
            pass
        try:
            if bad == "none":
                pool.submit(None)
            elif bad == "number":
                pool.submit(5)
            elif bad == "coro-threaded":
                aiomisc.threaded(coro)
            else:
                aiomisc.threaded_separate(coro)
        except (ValueError, TypeError):
            pass
        else:
            fail("what-cannot-run-is-refused")
        job = Job(0, None, "value")
        await call(job, submitters("submit", pool))
        job.verify()
        pool.shutdown()
    return run(main())


def scenarios(tier):
    kinds = list(OUTCOMES)
    two = ["value", "error"]
    out = [
        Scenario("outcomes", timing, dict(
            n=2, m=2, submit="in_executor", kinds=kinds)),
        Scenario("outcomes-new", timing, dict(
            n=2, m=None, submit="new", kinds=kinds)),
        Scenario("outcomes-separate", timing, dict(
            n=2, m=None, submit="separate", kinds=two)),
        Scenario("outcomes-threaded", timing, dict(
            n=2, m=1, submit="threaded", kinds=kinds)),
        Scenario("order-m1", timing, dict(
            n=3, m=1, submit="submit", kinds=None)),
        Scenario("order-m2", timing, dict(
            n=4, m=2, submit="submit", kinds=None)),
        Scenario("order-m3", timing, dict(
            n=4, m=3, submit="submit", kinds=None)),
        Scenario("order-m3-3", timing, dict(
            n=3, m=3, submit="submit", kinds=None)),
        Scenario("order-m4-3", timing, dict(
            n=3, m=4, submit="submit", kinds=None)),
        Scenario("order-m4", timing, dict(
            n=4, m=4, submit="in_executor", kinds=None)),
        Scenario("cancel-m1", timing, dict(
            n=3, m=1, submit="in_executor", kinds=None, cancels=1),
            covers=("cancelled-queued",)),
        Scenario("cancel-m2", timing, dict(
            n=3, m=2, submit="submit", kinds=None, cancels=1),
            covers=("cancelled-queued",)),
        Scenario("cancel-threaded", timing, dict(
            n=3, m=1, submit="threaded", kinds=None, cancels=1),
            covers=("cancelled-queued",)),
        Scenario("cancel-new", timing, dict(
            n=2, m=None, submit="new", kinds=None, cancels=1)),
        Scenario("shutdown-m1", closing, dict(n=2, m=1, how="call"),
                 covers=("unfinished", "wait-cut-off")),
        Scenario("shutdown-m2", closing, dict(n=3, m=2, how="call"),
                 covers=("unfinished", "wait-cut-off")),
        Scenario("shutdown-long", closing, dict(n=2, m=1, how="call",
                                                long=True),
                 covers=("wait-cut-off",)),
        Scenario("shutdown-m4", closing, dict(n=3, m=4, how="call"),
                 covers=("unfinished",)),
        Scenario("shutdown-nowait-m1", closing,
                 dict(n=2, m=1, how="call", wait=False),
                 covers=("unfinished",)),
        Scenario("shutdown-nowait-m2", closing,
                 dict(n=3, m=2, how="call", wait=False),
                 covers=("unfinished",)),
        Scenario("shutdown-patient-m1", closing,
                 dict(n=2, m=1, how="call", cls=Patient),
                 covers=("unfinished",)),
        Scenario("shutdown-patient-m2", closing,
                 dict(n=2, m=2, how="call", cls=Patient),
                 covers=("unfinished",)),
        Scenario("shutdown-default", closing, dict(n=2, m=1, how="default"),
                 covers=("unfinished",)),
        Scenario("loop-close-m1", loop_close, dict(n=2, m=1, given=True),
                 covers=("closed-with-unfinished-jobs",)),
        Scenario("loop-close-m2", loop_close, dict(n=3, m=2, given=True),
                 covers=("closed-with-unfinished-jobs",)),
        Scenario("abandoned-m3", abandoned, dict(m=3, first=2),
                 covers=("room",)),
        Scenario("abandoned-m4", abandoned, dict(m=4, first=3),
                 covers=("room",)),
        Scenario("refused", refused, {}),
    ]
    for what in ("none", "cancel", "shutdown", "shutdown-nowait"):
        for m in (1, 2):
            out.append(Scenario("race-%s-m%d" % (what, m), racing,
                                dict(n=2, m=m, what=what, K=1)))
    if tier == "thorough":
        out += [
            Scenario("order-m2-5", timing, dict(
                n=5, m=2, submit="submit", kinds=None)),
            Scenario("cancel2-m2", timing, dict(
                n=4, m=2, submit="in_executor", kinds=None, cancels=2)),
            Scenario("cancel2-m4", timing, dict(
                n=4, m=4, submit="in_executor", kinds=None, cancels=2)),
            Scenario("shutdown-m2-4", closing, dict(n=4, m=2, how="call")),
        ]
        for what in ("none", "cancel", "shutdown", "shutdown-nowait"):
            for m in (1, 2):
                out.append(Scenario("race2-%s-m%d" % (what, m), racing,
                                    dict(n=2, m=m, what=what, K=2)))
    return out
