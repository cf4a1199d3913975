"""
C28 -- process services.  The processes are simulated threads which run the
code a child process would run; the instants at which they come up, end,
crash, react to the interrupt and vanish, and those of stop and
cancellation, are symbolic.
"""
import asyncio
import contextvars
import logging
import multiprocessing.popen_fork
import multiprocessing.popen_forkserver
import multiprocessing.popen_spawn_posix
import multiprocessing.process
import multiprocessing.synchronize
import signal
import sys
import threading

from symx.api import *
from symx import sim as _sim

from aiomisc import ThreadPoolExecutor
from aiomisc.service import ProcessService, RespawningProcessService

BOUNDS = {
    "quick": "one process with any times of coming up, ending, reacting to "
             "the interrupt (or ignoring it) and vanishing; up to 3 "
             "respawned processes; any instants of stop and cancellation",
    "thorough": "up to 4 respawned processes, 1 preemption",
}
ASSUMPTIONS = ["a killed process is gone at once",
               "the pool of the loop has free threads"]
OUTSIDE = ["process ids reused by others", "start methods"]


logging.getLogger("aiomisc.service.process").setLevel(100)


class Dead(BaseException):
    """the process was killed: nothing of it runs any longer"""


class World:
    current = None

    def __init__(self, plans):
        World.current = self
        self.plans = list(plans)
        self.all = []
        self.by_thread = {}

    def alive(self):
        return [p for p in self.all if p.returncode is None]

    def me(self):
        return self.by_thread.get(threading.current_thread())

    def kill(self, pid, sig):
        for p in self.all:
            if p.pid == pid:
                return p.signal(int(sig))
        raise ProcessLookupError(3, "no such process")


class Plan:
    def __init__(self, boot=0, life=None, crash=False, react=0, linger=0,
                 stillborn=False):
        self.boot, self.life, self.crash = boot, life, crash
        self.react, self.linger = react, linger
        self.stillborn = stillborn


class Popen:
    method = "fork"

    def __init__(self, obj):
        w = World.current
        check(not w.alive(), "never-two-alive")
        self.n = len(w.all)
        self.pid = 10 ** 7 + self.n
        self.sentinel = -1
        self.returncode = None
        self.dead = False
        self.signals = []
        self.born = now()
        self.up = self.ended = None
        self.kwargs = None
        assume(self.n < len(w.plans))
        self.plan = w.plans[self.n]
        self.name = obj.name
        self.target = obj._target, obj._args, obj._kwargs
        w.all.append(self)
        c = contextvars.copy_context()
        self.thread = threading.Thread(target=lambda: c.run(self.child))
        w.by_thread[self.thread] = self
        self.thread.start()

    def child(self):
        try:
            self.nap(self.plan.boot)
            if self.signals:
                raise KeyboardInterrupt
            if self.plan.stillborn:
                self.dead = True
                raise Dead
            f, a, k = self.target
            f(*a, **k)
            code = 0
        except KeyboardInterrupt:
            code = 1
        except Dead:
            code = -9
        except Exception:
            code = 1
        try:
            if not self.dead:
                self.nap(self.plan.linger, False)
        except Dead:
            code = -9
        self.returncode = code
        self.ended = now()

    def nap(self, d, interruptible=True):
        """sleeps; tells whether it was not interrupted"""
        end = None if d is None else now() + d
        n = len(self.signals)
        slept = not sim().block(
            lambda: self.dead or interruptible and len(self.signals) > n,
            None if end is None else lambda: end)
        if self.dead:
            raise Dead
        return slept

    def work(self):
        self.up = now()
        p = self.plan
        end = None if p.life is None else now() + p.life
        while True:
            d = None if end is None else smax(end - now(), 0)
            if self.nap(d):
                if p.crash:
                    self.dead = True
                    raise Dead
                return
            if p.react is not None:
                self.nap(p.react, False)
                raise KeyboardInterrupt

    def signal(self, sig):
        if self.returncode is not None:
            return
        self.signals.append((now(), sig))
        if sig == signal.SIGKILL:
            self.dead = True
            self.returncode = -9
            self.ended = now()

    def poll(self, flag=0):
        return self.returncode

    def wait(self, timeout=None):
        end = None if timeout is None else now() + timeout
        sim().block(lambda: self.returncode is not None,
                    None if end is None else lambda: end)
        return self.returncode

    def terminate(self):
        self.signal(signal.SIGTERM)

    def kill(self):
        self.signal(signal.SIGKILL)

    def interrupt(self):
        self.signal(signal.SIGINT)

    def close(self):
        pass


class Event:
    """multiprocessing.Event"""

    def __init__(self, *, ctx=None):
        self.flag = False

    def is_set(self):
        return self.flag

    def set(self):
        me = World.current.me()
        if me is None or not me.dead:
            self.flag = True

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        end = None if timeout is None else now() + timeout
        sim().block(lambda: self.flag,
                    None if end is None else lambda: end)
        return self.flag


def stand_in(module, name, mine):
    """inside of a path only: the checks themselves use processes"""
    real = getattr(module, name)

    def make(*a, **kw):
        return (real if World.current is None else mine)(*a, **kw)
    setattr(module, name, make)


for m in (multiprocessing.popen_fork, multiprocessing.popen_forkserver,
          multiprocessing.popen_spawn_posix):
    stand_in(m, "Popen", Popen)
stand_in(multiprocessing.synchronize, "Event", Event)


class Service(ProcessService):
    color = "red"

    def get_process_kwargs(self):
        return {"number": 5}

    def in_process(self, **kwargs):
        me = World.current.me()
        me.kwargs = kwargs
        me.work()


class Respawning(RespawningProcessService):
    def in_process(self):
        World.current.me().work()


class place:
    """processes, logging and the hooks come back as they were"""

    def __enter__(self):
        s = sim().os
        s["getpid"] = lambda: 10 ** 7 - 1
        s["kill"] = lambda pid, sig: World.current.kill(pid, sig)
        multiprocessing.process._children.clear()
        self.config = multiprocessing.process._current_process._config
        self.daemon = self.config.get("daemon")
        self.config["daemon"] = False
        root = logging.getLogger()
        self.saved = root.level, list(root.handlers), sys.excepthook

    def __exit__(self, *a):
        self.config["daemon"] = self.daemon
        root = logging.getLogger()
        root.level, root.handlers[:], sys.excepthook = self.saved
        logging.Logger.manager._clear_cache()
        multiprocessing.process._children.clear()
        multiprocessing.process._dangling.clear()
        World.current = None


def why():
    """stopped at the end, or since another service has failed"""
    return pick("why", [(), (RuntimeError("other"),)])


def times(n, react=True):
    out = []
    for i in range(n):
        p = Plan(boot=sym_real("boot%d" % i, 0, 10))
        how = pick("life%d" % i, ["stays", "ends", "crashes"])
        if how != "stays":
            p.life = sym_real("lives%d" % i, 0, 20)
            p.crash = how == "crashes"
        p.react = sym_real("react%d" % i, 0, 20) \
            if choose("reacts%d" % i, 2) else None
        if not p.crash:
            p.linger = sym_real("linger%d" % i, 0, 20)
        out.append(p)
    return out


def prepared(cls, **kw):
    s = cls(**kw)
    s.set_loop(asyncio.get_running_loop())
    asyncio.get_running_loop().set_default_executor(ThreadPoolExecutor(3))
    return s


def single(k, limit):
    threads(preempt=k, lines=("process.py",), free_choice=False)
    w = World(times(1))
    plan, = w.plans
    T = sym_real("stop", 0, 20)

    async def main():
        s = prepared(Service, name="worker", process_stop_timeout=limit)
        await s.start()
        check(len(w.all) == 1, "starts-its-process")
        p, = w.all
        check(p.up is not None and now() == p.up, "returns-when-it-runs")
        check(p.kwargs == {"number": 5}, "starts-its-process")
        check(p.name == "worker", "starts-its-process")
        await asyncio.sleep(T)
        t0 = now()
        alive = p.returncode is None
        await s.stop(*why())
        stopped(w, p, t0, alive, limit)
        await s.stop()
        await asyncio.sleep(100)
        check(len(w.all) == 1, "none-is-started-after-the-stop")
    with place():
        return run(main())


def stopped(w, p, t0, alive, limit):
    check(not w.alive(), "none-survives-the-stop")
    took = now() - t0
    check(took <= 2 * limit, "the-stop-takes-a-limited-time")
    if not alive:
        check(not p.signals, "the-dead-are-not-signalled")
        check(took == 0, "the-stop-takes-a-limited-time")
        cover("ended before")
        return
    first = p.signals[0] if p.signals else None
    check(first is not None and first[1] == signal.SIGINT
          and first[0] == t0, "is-interrupted")
    kills = [t for t, sig in p.signals if sig == signal.SIGKILL]
    if kills:
        check(kills[0] - t0 >= limit, "killed-after-the-timeout-only")
        cover("killed")
    else:
        if p.returncode != -9:
            check(now() == p.ended, "the-stop-ends-with-the-process")
        cover("ended")
    check([sig for _, sig in p.signals].count(signal.SIGINT) == 1,
          "is-interrupted")


def start_cancelled(k, cls):
    threads(preempt=k, lines=("process.py",), free_choice=False)
    boot = sym_real("boot", 0, 10)
    plan = Plan(boot=boot, react=sym_real("react", 0, 10)
                if choose("reacts", 2) else None)
    w = World([plan])
    C = sym_real("cancel", 0, 10)

    async def main():
        s = prepared(cls, process_stop_timeout=3)
        task = asyncio.ensure_future(s.start())
        await asyncio.sleep(C)
        task.cancel()
        how, v = await outcome(task)
        if how == "cancelled":
            cover("cancelled")
        else:
            check(how == "ok", "start-ends", repr(v))
        await s.stop()
        check(not w.alive(), "none-survives-the-stop")
        await asyncio.sleep(50)
        check(not w.alive(), "none-survives-the-stop")
        check(len(w.all) <= 1, "none-is-started-after-the-stop")
    with place():
        return run(main())


def stop_while_starting(k, cls):
    """another service has failed: everything is stopped"""
    threads(preempt=k, lines=("process.py",), free_choice=False)
    plan = Plan(boot=sym_real("boot", 0, 10), react=sym_real("react", 0, 10)
                if choose("reacts", 2) else None)
    w = World([plan])
    T = sym_real("stop", 0, 10)

    async def main():
        s = prepared(cls, process_stop_timeout=3)
        task = asyncio.ensure_future(s.start())
        await asyncio.sleep(T)
        cover("starting" if not task.done() else "started")
        t0 = now()
        await s.stop(*why())
        check(not w.alive(), "none-survives-the-stop")
        check(now() - t0 <= 6, "the-stop-takes-a-limited-time")
        await asyncio.sleep(50)
        check(not w.alive(), "none-survives-the-stop")
        check(len(w.all) <= 1, "none-is-started-after-the-stop")
        check(task.done(), "start-ends")
        await outcome(task)
    with place():
        return run(main())


def stop_cancelled(k, limit):
    threads(preempt=k, lines=("process.py",), free_choice=False)
    plan = Plan(react=sym_real("react", 0, 20) if choose("reacts", 2)
                else None, linger=sym_real("linger", 0, 20))
    w = World([plan])
    C = sym_real("cancel", 0, 20)

    async def main():
        s = prepared(Service, process_stop_timeout=limit)
        await s.start()
        task = asyncio.ensure_future(s.stop())
        await asyncio.sleep(C)
        task.cancel()
        how, v = await outcome(task)
        cover(how)
        if how == "cancelled":
            # it may not have begun at all
            await s.stop()
        check(not w.alive(), "none-survives-the-stop")
    with place():
        return run(main())


def stillborn(k, cls):
    threads(preempt=k, lines=("process.py",), free_choice=False)
    w = World([Plan(boot=sym_real("boot", 0, 5), stillborn=True)] * 6)

    async def main():
        s = prepared(cls)
        task = asyncio.ensure_future(s.start())
        await asyncio.sleep(20)
        check(task.done(), "start-ends")
        how, v = await outcome(task)
        check(how == "exc", "a-failed-start-fails", repr((how, v)))
        cover("failed")
        await s.stop()
        check(not w.alive(), "none-survives-the-stop")
    with place():
        return run(main())


def respawn(n, k, poll, linger=False, stubborn=False):
    threads(preempt=k, lines=("process.py",), free_choice=False)
    plans = []
    for i in range(n):
        p = Plan(boot=sym_real("boot%d" % i, 0, 4) if i else 0)
        p.life = sym_real("lives%d" % i, 0, 12)
        p.crash = choose("crashes%d" % i, 2) if i == 0 else 0
        if i == n - 1:
            p.life = None
        if linger and not p.crash:
            p.linger = sym_real("linger%d" % i, 0, 4)
        p.react = None if stubborn else 0
        plans.append(p)
    w = World(plans)
    T = sym_real("stop", 0, poll * n)

    async def main():
        s = prepared(Respawning, process_poll_timeout=poll,
                     process_stop_timeout=3)
        await s.start()
        check(len(w.all) == 1 and w.all[0].up is not None,
              "returns-when-it-runs")
        await asyncio.sleep(T)
        t0 = now()
        for a, b in zip(w.all, w.all[1:]):
            check(b.born >= a.ended and b.born <= a.ended + poll,
                  "respawned-within-the-poll-time")
            cover("respawned")
        last = w.all[-1]
        if last.returncode is not None:
            check(t0 <= last.ended + poll, "respawned-within-the-poll-time")
        count = len(w.all)
        await s.stop(*(why() if n == 2 else ()))
        check(not w.alive(), "none-survives-the-stop")
        check(len(w.all) == count, "none-is-started-after-the-stop")
        check(now() - t0 <= 6, "the-stop-takes-a-limited-time")
        await asyncio.sleep(50)
        check(not w.alive(), "none-survives-the-stop")
        check(len(w.all) == count, "none-is-started-after-the-stop")
        cover("stopped")
    with place():
        return run(main())


def scenarios(tier):
    t = tier == "thorough"
    k = 1 if t else 0
    out = [Scenario("single-%s" % limit, single, dict(k=k, limit=limit),
                    covers=["ended before", "killed", "ended"])
           for limit in (3, 0.5)]
    for cls in Service, Respawning:
        out += [
            Scenario("start-cancelled-" + cls.__name__, start_cancelled,
                     dict(k=k, cls=cls), covers=["cancelled"]),
            Scenario("stop-while-starting-" + cls.__name__,
                     stop_while_starting, dict(k=k, cls=cls),
                     covers=["starting", "started"]),
            Scenario("stillborn-" + cls.__name__, stillborn,
                     dict(k=k, cls=cls), covers=["failed"]),
        ]
    out.append(Scenario("stop-cancelled", stop_cancelled,
                        dict(k=k, limit=3), covers=["cancelled", "ok"]))
    for poll in 5, 1:
        out.append(Scenario("respawn-%d" % poll, respawn,
                            dict(n=4 if t else 3, k=k, poll=poll),
                            covers=["respawned", "stopped"]))
    out.append(Scenario("respawn-linger", respawn,
                        dict(n=2, k=k, poll=5, linger=True),
                        covers=["respawned", "stopped"]))
    out.append(Scenario("respawn-stubborn", respawn,
                        dict(n=2, k=k, poll=5, stubborn=True),
                        covers=["respawned", "stopped"]))
    return out
