"""
C34 -- the pool of processes.  The processes of the standard library's pool
are replaced by stand-ins which take a solver-chosen time and end as the
solver chooses; the instants of the calls, of cancellations and of the death
of the processes are solver-chosen too.
"""
import asyncio
import concurrent.futures
import concurrent.futures.process
import gc
import logging
from concurrent.futures import Future
from concurrent.futures.process import BrokenProcessPool

from symx.api import *

from aiomisc import ProcessPoolExecutor, get_statistics
from aiomisc.process_pool import ProcessPoolStatistic

Base = concurrent.futures.ProcessPoolExecutor

BOUNDS = {
    "quick": "3 calls at arbitrary instants, 1 or 2 workers, each of arbitrary "
             "duration with a result, an error, a cancellation or the death "
             "of the processes; every setting of the constructor",
    "thorough": "4 calls",
}
ASSUMPTIONS = ["the standard library's pool runs what it is given, and tells "
               "the future of the call how it ended",
               "callbacks take no time"]
OUTSIDE = ["the standard library's pool itself: pickling, pipes, forks",
           "calls which end in several threads at the very same moment"]


class Errors(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage())


class processes:
    """stands in for the processes of the standard library's pools"""

    def __enter__(self):
        self.made, self.shut, self.calls = [], [], []
        self.waiting, self.busy = [], 0
        self.refuse = self.dead = False
        self.plan = {}
        env = self

        def init(pool, *args, **kwargs):
            names = ("max_workers", "mp_context", "initializer", "initargs")
            kwargs.update(zip(names, args))
            env.made.append(kwargs)
            n = kwargs.get("max_workers")
            # as the original does
            pool._max_workers = 6 if n is None else n
            if pool._max_workers <= 0:
                raise ValueError("max_workers must be greater than 0")
            env.size = pool._max_workers

        def submit(pool, fn, /, *args, **kwargs):
            if env.refuse:
                raise RuntimeError("cannot schedule new futures")
            if env.dead:
                raise BrokenProcessPool("dead")
            f = Future()
            f.call = (fn, args, kwargs)
            f.end = None
            env.calls.append(f)
            env.waiting.append(f)
            env.next()
            return f

        def shutdown(pool, wait=True, *, cancel_futures=False):
            env.shut.append((wait, cancel_futures))
        self.saved = Base.__init__, Base.submit, Base.shutdown
        Base.__init__, Base.submit, Base.shutdown = init, submit, shutdown
        self.log = logging.getLogger("concurrent.futures")
        self.before = self.log.handlers[:], self.log.propagate
        self.errors = Errors()
        self.log.handlers[:] = [self.errors]
        self.log.propagate = False
        return self

    def __exit__(self, *exc):
        Base.__init__, Base.submit, Base.shutdown = self.saved
        self.log.handlers[:], self.log.propagate = self.before

    def next(self):
        while self.waiting and self.busy < self.size and not self.dead:
            f = self.waiting.pop(0)
            if not f.set_running_or_notify_cancel():
                continue
            self.busy += 1
            fn, args, kwargs = f.call
            asyncio.get_running_loop().call_later(
                fn.duration, self.ends, f, fn, args, kwargs)

    def ends(self, f, fn, args, kwargs):
        if f.done():
            return
        self.busy -= 1
        f.end = now()
        try:
            r = fn(*args, **kwargs)
        except Exception as e:
            f.set_exception(e)
        else:
            f.set_result(r)
        self.next()

    def die(self):
        self.dead = True
        for f in self.calls:
            if not f.done():
                f.end = now()
                f.set_exception(BrokenProcessPool("dead"))


class Falsy(Err):
    def __len__(self):
        return 0


class Job:
    def __init__(self, i, kind, duration, args=(), kwargs={}):
        self.i, self.kind, self.duration = i, kind, duration
        self.given = args, kwargs
        self.runs = 0

    def __call__(self, *args, **kwargs):
        self.runs += 1
        check((args, kwargs) == self.given, "called with its arguments",
              (args, kwargs))
        if self.kind == "error":
            raise (Err if self.i % 2 else Falsy)(self.i)
        return None if self.kind == "none" else ("result", self.i)


def made(*args, **kwargs):
    """a pool and its statistic"""
    before = {id(x) for x in ProcessPoolStatistic.__instances__}
    pool = ProcessPoolExecutor(*args, **kwargs)
    stats = [x for x in ProcessPoolStatistic.__instances__
             if id(x) not in before]
    check(len(stats) == 1, "a statistic of its own")
    stats[0].name = "of %d" % len(before)
    return pool, stats[0]


def mine(stat):
    return {r.metric: r.value for r in get_statistics(ProcessPoolStatistic)
            if r.name == stat.name}


def consistent(env, stat, started, label):
    """what is reported matches what has happened up to now"""
    got = mine(stat)
    done = [f for f in env.calls if f.done()]
    failed = [f for f in done if not f.cancelled() and
              f.exception() is not None]
    cancelled = [f for f in done if f.cancelled()]
    check(got["submitted"] == len(env.calls), label + " submitted", got)
    check(got["done"] == len(done), label + " done", (got, len(done)))
    check(got["error"] == len(failed), label + " error", got)
    check(got["success"] == len(done) - len(failed) - len(cancelled),
          label + " success", got)
    total = 0
    for f in done:
        if not f.cancelled():
            total = total + (f.end - started[f])
        else:
            total = total + (f.gone - started[f])
    check(got["sum_time"] == total, label + " sum_time",
          (got["sum_time"], total))


def calls(n, workers, kinds, ways, death=False, cancels=None):
    async def main():
        loop = asyncio.get_running_loop()
        with processes() as env:
            pool, stat = made(workers)
            started = {}
            outcomes = {}

            async def caller(i, at, kind, way):
                if at is not None:
                    await asyncio.sleep(at)
                args = () if way == "wrap" else ("a", i)
                kwargs = {"key": i} if way == "submit" else {}
                job = Job(i, kind, pos_real("duration%d" % i), args, kwargs)
                k = len(env.calls)
                try:
                    if way == "run_in_executor":
                        aio = loop.run_in_executor(pool, job, *args)
                    elif way == "submit":
                        f = pool.submit(job, *args, **kwargs)
                        check(f is env.calls[k], "the future of the call")
                        aio = asyncio.wrap_future(f)
                    else:
                        aio = asyncio.wrap_future(pool.submit(job))
                except BrokenProcessPool:
                    check(env.dead, "accepted while the processes live")
                    cover("refused")
                    consistent(env, stat, started, "refused")
                    return
                check(len(env.calls) == k + 1, "given to the processes once")
                f = env.calls[k]
                check(f.call[0] is job, "given to the processes")
                started[f] = now()
                consistent(env, stat, started, "after the call")
                f.add_done_callback(gone)
                if kind == "cancel":
                    loop.call_later(pos_real("patience%d" % i), aio.cancel)
                if death:
                    check(not env.dead, "refused once the processes died")
                out = await outcome(aio)
                t = now()
                if f.cancelled():
                    cover("cancelled")
                    check(out[0] == "cancelled", "told it is cancelled")
                    check(job.runs == 0, "cancelled one is not run")
                elif out[0] == "cancelled":
                    cover("cancelled-too-late")
                    check(kind == "cancel", "only a cancelled one is cancelled")
                elif env.dead and job.runs == 0:
                    cover("died")
                    check(out[0] == "exc" and
                          isinstance(out[1], BrokenProcessPool),
                          "told about the death", out)
                    check(t == f.end, "told at once")
                elif kind == "error":
                    cover("error")
                    check(out[0] == "exc" and isinstance(out[1], Err) and
                          out[1].args == (i,), "told its own error", out)
                    check(t == f.end, "told at once")
                else:
                    cover("result")
                    check(out[0] == "ok" and out[1] == (
                        None if kind == "none" else ("result", i)),
                        "told its own result", out)
                    check(t == f.end, "told at once")
                consistent(env, stat, started, "after the end")

            def gone(f):
                f.gone = now()

            users = []
            unlucky = range(n)
            if cancels is not None:
                first = choose("unlucky", n)
                unlucky = [x % n for x in range(first, first + cancels)]
            for i in range(n):
                # those who come together come first
                late = i if cancels is None else i == n - 1
                at = pos_real("arrival%d" % i) if late else None
                if cancels is not None:
                    kind = "cancel" if i in unlucky else "result"
                else:
                    kind = pick("kind%d" % i, kinds)
                users.append(asyncio.ensure_future(caller(
                    i, at, kind, ways[i % len(ways)])))
            if death:
                loop.call_later(pos_real("death"), env.die)
            await asyncio.gather(*users)
            await asyncio.sleep(1000)
            consistent(env, stat, started, "in the end")
            check(not env.errors.got, "no callback fails", env.errors.got)
            check(mine(stat)["processes"] == workers, "processes")
            check(env.shut == [], "goes on until it is shut down")
    run(main(), ties=False)


def settings():
    """what the pool is made with, how it ends"""
    async def main():
        with processes() as env:
            kw = {}
            how = pick("workers", ["default", "none", "number", "keyword"])
            args = ()
            n = sym_int("n", 1, 61)
            if how == "none":
                kw["max_workers"] = None
            elif how == "number":
                args = (n,)
            elif how == "keyword":
                kw["max_workers"] = n
            for name in ("mp_context", "initializer", "initargs",
                         "max_tasks_per_child"):
                if choose(name, 2):
                    kw[name] = (object(),)
            pool, stat = made(*args, **kw)
            check(len(env.made) == 1, "made once")
            given = env.made[0]
            for name in ("mp_context", "initializer", "initargs",
                         "max_tasks_per_child"):
                check(given.get(name) is kw.get(name), "setting reaches", name)
            got = mine(stat)["processes"]
            if how == "default":
                check(given["max_workers"] ==
                      ProcessPoolExecutor.DEFAULT_MAX_WORKERS, "default size")
            check(got == pool._max_workers, "processes", got)
            if how in ("number", "keyword"):
                check(And(given["max_workers"] == n, got == n), "size")
            check(all(mine(stat).get(x) == 0 for x in (
                "submitted", "done", "success", "error", "sum_time")),
                "nothing counted yet")
            check(pool.loop is asyncio.get_running_loop(), "its loop")
            check(env.shut == [], "works until it ends")
            way = pick("end", ["with", "delete", "shutdown",
                               "shutdown-args"])
            if way == "with":
                with pool as same:
                    check(same is pool, "itself")
                    check(env.shut == [], "works until it ends")
                check(env.shut[:1] == [(True, False)], "with waits")
            elif way == "shutdown":
                pool.shutdown()
                check(env.shut == [(True, False)], "shut down")
            elif way == "shutdown-args":
                w, c = bool(choose("wait", 2)), bool(choose("cancel", 2))
                pool.shutdown(w, cancel_futures=c)
                check(env.shut == [(w, c)], "shut down as asked")
            seen = len(env.shut)
            pool = same = None
            gc.collect()
            check(len(env.shut) >= max(1, seen), "its end shuts it down")
            cover(way)
            check(not env.errors.got, "no callback fails")
    run(main(), ties=False)


def no_loop():
    """a call from where no loop runs"""
    with processes() as env:
        pool, stat = made(2)
        job = Job(0, "result", 1)
        try:
            pool.submit(job, "a", 0)
        except RuntimeError:
            cover("refused")
            check(env.calls == [], "refused one is not run")
            check(mine(stat)["submitted"] == 0, "refused one is not counted")
        else:
            fail("refused without a loop")
        env.refuse = True

        async def main():
            try:
                pool.submit(job, "a", 0)
            except RuntimeError:
                cover("closed")
            else:
                fail("refused by a closed pool")
            check(mine(stat)["submitted"] == 0 and mine(stat)["done"] == 0,
                  "refused one is not counted")
        run(main())


def several():
    """two pools do not share what they count"""
    async def main():
        with processes() as env:
            (a, sa), (b, sb) = made(1), made(2)
            n = [0, 0]
            for i in range(3):
                k = choose("pool%d" % i, 2)
                n[k] += 1
                job = Job(i, pick("kind%d" % i, ["result", "error"]),
                          pos_real("duration%d" % i))
                await outcome(asyncio.wrap_future(
                    (a, b)[k].submit(job)))
                for stat, m in ((sa, n[0]), (sb, n[1])):
                    got = mine(stat)
                    check(got["submitted"] == m and got["done"] == m and
                          got["success"] + got["error"] == m, "its own counts")
            cover("all")
    run(main(), ties=False)


def scenarios(tier):
    deep = tier == "thorough"
    n = 4 if deep else 3
    both = ["run_in_executor", "submit", "wrap"]
    out = []
    for w in (1, 2):
        out.append(Scenario("calls %d-workers" % w, calls, dict(
            n=n, workers=w, kinds=["result", "error", "none"], ways=both),
            covers=("result", "error")))
        out.append(Scenario("cancelled %d-workers" % w, calls, dict(
            n=3, workers=w, kinds=(), cancels=2 if deep else 1, ways=both),
            covers=("result", "cancelled", "cancelled-too-late")))
        out.append(Scenario("death %d-workers" % w, calls, dict(
            n=n, workers=w, kinds=["result"],
            ways=both, death=True), covers=("result", "died", "refused")))
    out.append(Scenario("settings", settings, covers=(
        "with", "delete", "shutdown", "shutdown-args")))
    out.append(Scenario("no-loop", no_loop, covers=("refused", "closed")))
    out.append(Scenario("several", several, covers=("all",)))
    return out
