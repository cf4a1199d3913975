import asyncio
import hashlib
import hmac
import io
import operator
import pickle
import signal
import struct
from multiprocessing import ProcessError

from symx.api import *
from symx.net import Network

from aiomisc import ThreadPoolExecutor, WorkerPool
from aiomisc_worker import INT_SIGNAL, SIGNAL, PacketTypes
from aiomisc_worker.protocol import FileIOProtocol

BOUNDS = {
    "quick": "1-2 workers, <=4 tasks of arbitrary duration and outcome, one "
             "cancellation at any instant or loop iteration, one stranger, "
             "one death, close at any instant",
    "thorough": "as quick with one task and one cancellation more",
}
ASSUMPTIONS = [
    "bytes written by one side are at once available to the other one; "
    "signals are delivered at once; a worker which dies is started again "
    "after 0.5 s, one whose connection the pool has ended is not (as "
    "aiomisc_worker.forking does it)",
    "payloads of peers which did not authenticate are harmless to unpickle",
]
OUTSIDE = ["timing side channels of the digest comparison",
           "replay of an authentication by somebody able to read the socket",
           "real processes"]

HEADER = struct.Struct("!L")


def pack(obj):
    data = pickle.dumps(obj)
    return HEADER.pack(len(data)) + data


class Boom:
    """cannot be unpickled"""

    def __reduce__(self):
        return int, ("x",)


# results which are easily taken for something else
VALUES = {"none": None, "zero": 0, "false": False, "empty": (), "text": "",
          "class": ValueError, "pair": (PacketTypes.EXCEPTION, None)}


class World:
    def __init__(self):
        self.net = Network.attach()
        self.supervisor = None
        self.cookie = None
        self.ids = ()
        self.workers = []
        self.pids = 10 ** 8       # never a real process
        self.plan = {}          # task number -> (duration, outcome)
        self.runs = []          # (task number, pid)
        self.ends = {}          # task number -> outcome
        self.signals = []       # (pid, task number)
        self.expected = set()   # task numbers which may be signalled
        self.interrupts = []
        self.reaction = None
        self.abrupt = False
        sim().os.update(Popen=self.popen, kill=self.kill)

    # ---- processes
    def popen(self, args, stdin=None, env=None, **kw):
        check(self.supervisor is None, "one-supervisor")
        self.supervisor = Supervisor(self)
        return self.supervisor

    def kill(self, pid, sig):
        if pid == self.supervisor.pid:
            check(sig == INT_SIGNAL, "supervisor-is-interrupted")
            self.interrupts.append(sig)
            return
        for w in self.workers:
            if w.pid == pid:
                check(sig == SIGNAL, "cancel-signal")
                if not w.alive:
                    raise ProcessLookupError(3, "No such process")
                w.on_signal()
                return
        fail("signal-for-a-stranger", repr((pid, sig)))

    def digest(self, worker_id):
        return hmac.HMAC(
            self.cookie, worker_id, digestmod=hashlib.sha256).digest()

    def spawn(self, worker_id):
        w = Worker(self, worker_id)
        self.workers.append(w)
        return w

    async def start(self, pool):
        asyncio.get_running_loop().set_default_executor(
            ThreadPoolExecutor(1))
        await pool.start()
        for i in self.ids:
            self.spawn(i)
        await settle(20)


class Stdin(io.BytesIO):
    def close(self):
        self.sent = self.getvalue()
        super().close()
        self.on_close(self.sent)


class Supervisor:
    pid = 10 ** 8 - 1

    def __init__(self, world):
        self.world = world
        self.returncode = None
        self.stdin = Stdin()
        self.stdin.on_close = self.told

    def told(self, data):
        proto = FileIOProtocol(io.BytesIO(data))
        proto.receive()
        proto.receive()
        self.world.cookie = proto.receive()
        self.world.ids = proto.receive()
        proto.receive()

    def poll(self):
        return self.returncode

    def kill(self):
        self.returncode = -9

    def terminate(self):
        self.returncode = -15

    def wait(self, timeout=None):
        return self.returncode


class Worker:
    """what a worker process does"""

    def __init__(self, world, worker_id):
        world.pids += 1
        self.world = world
        self.pid = world.pids
        self.id = worker_id
        self.alive = True
        self.current = None
        self.authorised = False
        self.interrupted = None
        self.peer = world.net.connect()
        self.task = asyncio.ensure_future(self.life())

    def send(self, obj):
        self.peer.write(pack(obj))

    async def receive(self):
        size = HEADER.unpack(await self.peer.read(HEADER.size))[0]
        return pickle.loads(await self.peer.read(size))

    async def life(self):
        await settle(2)
        self.send((PacketTypes.AUTH, self.id, self.world.digest(self.id),
                   self.pid))
        try:
            answer = await self.receive()
            check(answer == PacketTypes.AUTH_OK, "genuine-worker-is-accepted")
            self.authorised = True
            while self.alive:
                msg = await self.receive()
                if not self.alive:
                    return
                await self.execute(msg)
        except EOFError:
            # as worker(): the connection ended, exit status 0
            self.alive = False

    async def execute(self, msg):
        kind, func, args, kwargs = msg
        check(kind == PacketTypes.REQUEST, "workers-get-requests")
        n = args[0]
        check(func is operator.add and args == (n, 100) and kwargs == {},
              "request-carries-the-call")
        check(n not in [r[0] for r in self.world.runs],
              "sent-to-exactly-one-worker")
        check(self.current is None, "one-task-per-worker")
        self.world.runs.append((n, self.pid))
        duration, result = self.world.plan[n]
        self.current = n
        self.interrupted = asyncio.get_running_loop().create_future()
        await asyncio.wait([self.interrupted], timeout=duration)
        if not self.alive:
            return
        self.current = None
        if self.interrupted.done():
            result = "cancelled"
        self.world.ends[n] = result
        if result == "ok":
            self.send((PacketTypes.RESULT, ("result", n)))
        elif result in VALUES:
            self.send((PacketTypes.RESULT, VALUES[result]))
        elif result == "stop":
            self.send((PacketTypes.EXCEPTION, StopIteration(n)))
        elif result == "key":
            self.send((PacketTypes.EXCEPTION, KeyError(n)))
        elif result == "error":
            self.send((PacketTypes.EXCEPTION, ValueError(n)))
        elif result == "boom":
            self.send((PacketTypes.RESULT, Boom()))
        elif result == "cancelled":
            self.send((PacketTypes.CANCELLED, asyncio.CancelledError))
        elif result == "death":
            self.die()
        elif result == "partial":
            self.peer.write(pack((PacketTypes.RESULT, "never"))[:-3])
            self.die()

    def on_signal(self):
        if self.current is None and self.peer.data:
            # the request is there but not yet read: the process dies
            # outside of any task
            self.die()
            return
        check(self.current is not None, "cancel-hits-only-a-running-task",
              "pid %d was idle" % self.pid)
        check(self.current in self.world.expected,
              "cancel-hits-only-its-own-task", repr(self.current))
        self.world.signals.append((self.pid, self.current))
        how = self.world.reaction
        if how == "cancelled" and not self.interrupted.done():
            self.interrupted.set_result(None)
        elif how == "death":
            self.die()

    def die(self):
        self.alive = False
        if self.interrupted is not None and not self.interrupted.done():
            self.interrupted.set_result(None)
        if self.world.abrupt:
            self.peer.reset()
        else:
            self.peer.close()
        asyncio.get_running_loop().call_later(
            0.5, lambda: self.world.respawn(self.id))


def _respawn(self, worker_id):
    if not self.interrupts:
        self.spawn(worker_id)


World.respawn = _respawn


def duration(name):
    d = pos_real(name)
    assume(d < 10)
    return d


def call(pool, n):
    return asyncio.ensure_future(pool.create_task(operator.add, n, 100))


async def finish(tasks, limit=1000):
    done, pending = await asyncio.wait(tasks, timeout=limit)
    check(not pending, "every-caller-is-answered", "%d left" % len(pending))


async def check_answer(world, n, task):
    kind, value = await outcome(task)
    end = world.ends.get(n)
    what = "%s for %s" % ((kind, value), end)
    if end == "ok":
        check((kind, value) == ("ok", ("result", n)),
              "caller-gets-the-result", what)
    elif end == "error":
        check(kind == "exc" and type(value) is ValueError
              and value.args == (n,), "caller-gets-the-exception", what)
    elif end in VALUES:
        want = VALUES[end]
        check(kind == "ok" and type(value) is type(want) and value == want,
              "caller-gets-the-result", what)
    elif end == "key":
        check(kind == "exc" and type(value) is KeyError
              and value.args == (n,), "caller-gets-the-exception", what)
    elif end in ("boom", "stop"):
        check(kind == "exc", "caller-gets-an-error", what)
    elif end in ("death", "partial"):
        check(kind == "exc" and isinstance(value, ProcessError),
              "caller-of-a-dead-worker-gets-process-error", what)
    elif end == "cancelled":
        check(kind == "cancelled", "caller-gets-the-cancellation", what)
    else:
        fail("caller-answered-without-an-answer", what)


async def still_serving(world, pool, workers, first=50):
    """as many tasks as there are workers are run at once"""
    for i in range(workers):
        world.plan[first + i] = (3, "ok")
    await asyncio.sleep(25)
    started = now()
    tasks = [call(pool, first + i) for i in range(workers)]
    await finish(tasks)
    for i, t in enumerate(tasks):
        await check_answer(world, first + i, t)
    check(now() <= started + 3, "all-workers-are-still-used",
          "%s" % (now() - started))


async def end(world, pool, tasks=()):
    closing = asyncio.ensure_future(pool.close())
    done, pending = await asyncio.wait([closing], timeout=30)
    check(not pending, "close-ends")
    closing.result()
    await settle(20)
    check(len(world.interrupts) == 1, "close-interrupts-the-supervisor",
          repr(world.interrupts))
    for t in tasks:
        check(t.done(), "close-ends-every-caller")
    mine = {asyncio.current_task()} | {w.task for w in world.workers}
    left = [t for t in asyncio.all_tasks() if t not in mine]
    check(not left, "close-ends-every-handler", repr(left))


def answers(outcomes, n=3, workers=2):
    async def main():
        world = World()
        pool = WorkerPool(workers)
        await world.start(pool)
        for i in range(n):
            world.plan[i] = (duration("d%d" % i), pick("o%d" % i, outcomes))
        if n < 3:
            world.abrupt = sym_bool("abrupt")
        tasks = [call(pool, i) for i in range(n)]
        await finish(tasks)
        for i, t in enumerate(tasks):
            await check_answer(world, i, t)
            cover(world.ends[i])
        check(sorted(r[0] for r in world.runs) == list(range(n)),
              "each-task-runs-once")
        check(not world.signals, "no-signal-without-cancellation")
        await asyncio.sleep(5)
        check(pool.pids == {w.pid for w in world.workers if w.alive},
              "pids-are-those-of-the-workers")
        await still_serving(world, pool, workers)
        await end(world, pool)

    run(main())


def cancel(workers=1, n=2, fine=False, cancels=1):
    """callers are cancelled at any instant (or any loop iteration around
    the beginning or the end of their task)"""
    async def main():
        world = World()
        pool = WorkerPool(workers)
        await world.start(pool)
        world.reaction = pick("reaction", ["cancelled", "nothing", "death"])
        for i in range(n):
            world.plan[i] = (
                2 if fine else duration("d%d" % i),
                "ok" if i else pick("o0", ["ok", "cancelled", "death"])
                if fine else "ok")
        tasks = [call(pool, i) for i in range(n)]
        cancelled = {}

        def cancel_now(victim):
            running = [w for w in world.workers if w.alive and
                       w.current == victim]
            if tasks[victim].done():
                return
            world.expected.add(victim)
            cancelled[victim] = (
                "running" if running else
                "ended" if victim in world.ends else "queued")
            tasks[victim].cancel()

        async def canceller(k):
            victim = choose("victim%d" % k, n)
            if fine:
                when = sym_bool("late%d" % k)
                steps = choose("steps%d" % k, 12)
                if when:
                    # just about when the task ends
                    while not (tasks[victim].done() or victim in world.ends):
                        await asyncio.sleep(1)
                        if victim in [w.current for w in world.workers]:
                            await asyncio.sleep(1)
                await settle(steps)
            else:
                at = pos_real("c%d" % k)
                assume(at < 25)
                await asyncio.sleep(at)
            cancel_now(victim)

        cs = [asyncio.ensure_future(canceller(k)) for k in range(cancels)]
        await finish(tasks)
        await finish(cs)
        await settle(30)
        for i, t in enumerate(tasks):
            how = cancelled.get(i)
            hits = [s for s in world.signals if s[1] == i]
            if how is None:
                await check_answer(world, i, t)
                check(not hits, "no-signal-without-cancellation")
            elif how == "running":
                cover("cancelled-running")
                check((await outcome(t))[0] == "cancelled",
                      "cancelled-caller-is-cancelled")
                check(len(hits) == 1, "running-task-is-signalled-once",
                      repr(world.signals))
            elif how == "queued":
                cover("cancelled-queued")
                check((await outcome(t))[0] == "cancelled",
                      "cancelled-caller-is-cancelled")
                ran = [r for r in world.runs if r[0] == i]
                if ran:
                    check(len(hits) == 1, "running-task-is-signalled-once",
                          "ran although cancelled")
            else:
                check(not hits, "ended-task-is-not-signalled")
                cover("cancelled-ended")
        await still_serving(world, pool, workers)
        await end(world, pool)

    run(main())


def strangers():
    """peers which cannot prove to be one of our workers"""
    async def main():
        world = World()
        pool = WorkerPool(1)
        await world.start(pool)
        world.plan = {0: (2, "ok"), 1: (2, "ok")}
        tasks = [call(pool, 0), call(pool, 1)]
        at = pos_real("at")
        assume(at < 5)
        await asyncio.sleep(at)
        if at > 4:
            cover("stranger-when-idle")
        peer = world.net.connect()
        await settle(2)
        wid = world.ids[0]
        kind = pick("kind", [
            "digest", "id", "no-auth", "initializer", "garbage", "gone",
            "initializer-id", "unpickle", "cut", "short", "empty", "long",
            "none", "swapped", "id-type"])
        good = world.digest(wid)
        bad = bytes([good[0] ^ 1]) + good[1:]
        E = RuntimeError("stranger")
        if kind == "digest":
            peer.write(pack((PacketTypes.AUTH, wid, bad, 7)))
        elif kind in ("short", "empty", "long", "none"):
            peer.write(pack((PacketTypes.AUTH, wid, {
                "short": good[:1], "empty": b"", "long": good + b"x",
                "none": None}[kind], 7)))
        elif kind == "swapped":
            peer.write(pack((PacketTypes.AUTH, b"other", good, 7)))
        elif kind == "id-type":
            peer.write(pack((PacketTypes.AUTH, None, good, 7)))
        elif kind == "id":
            peer.write(pack((PacketTypes.AUTH, b"other",
                             world.digest(b"other"), 7)))
        elif kind == "no-auth":
            peer.write(pack((PacketTypes.RESULT, wid, good, 7)))
        elif kind == "initializer":
            peer.write(pack((PacketTypes.BAD_INITIALIZER, wid, bad, 7)))
            peer.write(pack((PacketTypes.EXCEPTION, E)))
        elif kind == "initializer-id":
            peer.write(pack((PacketTypes.BAD_INITIALIZER, b"other",
                             world.digest(b"other"), 7)))
            peer.write(pack((PacketTypes.EXCEPTION, E)))
        elif kind == "garbage":
            peer.write(pack("garbage"))
        elif kind == "unpickle":
            peer.write(pack(Boom()))
        elif kind == "gone":
            peer.reset()
        elif kind == "cut":
            peer.write(b"\0\0")
            peer.write_eof()
        cover(kind)
        world.plan[2] = (1, "ok")
        tasks.append(call(pool, 2))
        await finish(tasks)
        for i, t in enumerate(tasks):
            await check_answer(world, i, t)
        check(b"REQUEST" not in peer.data and len(peer.data) < 60,
              "strangers-get-no-work", repr(peer.data))
        await end(world, pool)

    run(main())


def initializer():
    """an authenticated worker reports that the initializer failed"""
    async def main():
        world = World()
        pool = WorkerPool(1)
        asyncio.get_running_loop().set_default_executor(
            ThreadPoolExecutor(1))
        await pool.start()
        early, late = call(pool, 0), None
        await settle(choose("steps", 3))
        peer = world.net.connect()
        await settle(2)
        wid = world.ids[0]
        peer.write(pack((PacketTypes.BAD_INITIALIZER, wid,
                         world.digest(wid), 7)))
        peer.write(pack((PacketTypes.EXCEPTION, ZeroDivisionError("init"))))
        await settle(choose("later", 4) * 5)
        tasks = [early, call(pool, 1)]
        await finish(tasks)
        kind, value = await outcome(early)
        check(kind == "exc" and type(value) is ZeroDivisionError,
              "failed-initializer-is-reported", repr((kind, value)))
        check((await outcome(tasks[1]))[0] != "ok", "no-result-after-close")
        cover("initializer")
        await end(world, pool, tasks)

    run(main())


def close(overflow=1, n=4, workers=1):
    async def main():
        world = World()
        pool = WorkerPool(workers, overflow)
        await world.start(pool)
        world.reaction = "nothing"
        for i in range(n):
            world.plan[i] = (duration("d%d" % i) if i < 2 else 1, "ok")
        tasks = [call(pool, i) for i in range(n)]
        at = pos_real("at")
        assume(at < 25)
        await asyncio.sleep(at)
        if sym_bool("twice"):
            other = asyncio.ensure_future(pool.close())
        else:
            other = None
        left = sum(not t.done() for t in tasks)
        # closing may signal those which run
        world.expected.update(range(n))
        cover("closed-with-%d" % left)
        await end(world, pool, tasks)
        if other is not None:
            check(other.done(), "close-ends")
        for i, t in enumerate(tasks):
            if t.done() and not t.cancelled() and t.exception() is None:
                await check_answer(world, i, t)
        after = call(pool, 77)
        await finish([after], 5)
        check((await outcome(after))[0] != "ok", "no-result-after-close")
        check(77 not in [r[0] for r in world.runs], "nothing-runs-after-close")
        await pool.close()

    run(main())


def bad_payloads(workers=2):
    """requests which cannot be sent, replies which cannot be read"""
    async def main():
        world = World()
        pool = WorkerPool(workers)
        await world.start(pool)
        bad = choose("bad", 2)
        n = choose("count", workers) + 1
        tasks = []
        for i in range(n):
            if bad:
                tasks.append(asyncio.ensure_future(
                    pool.create_task(operator.add, i, lambda: None)))
            else:
                world.plan[i] = (1, "boom")
                tasks.append(call(pool, i))
        await finish(tasks, 20)
        for t in tasks:
            kind, value = await outcome(t)
            check(kind == "exc", "bad-payload-is-an-error", repr(kind))
        cover("unsendable" if bad else "unreadable")
        await still_serving(world, pool, workers)
        await end(world, pool)

    run(main())


def calls():
    """the call arrives as it was made"""
    async def main():
        world = World()
        pool = WorkerPool(1)
        await world.start(pool)
        args = pick("args", [(), (None,), (0, False, ""), (print,)])
        kwargs = pick("kwargs", [{}, {"key": None}, {"a": 0, "b": ()},
                                 {"args": 1, "kwargs": 2, "pid": 3}])
        seen = []

        async def execute(msg):
            kind, func, a, k = msg
            seen.append((func, a, k))
            world.workers[0].send((PacketTypes.RESULT, 1))
        world.workers[0].execute = execute
        task = asyncio.ensure_future(
            pool.create_task(operator.add, *args, **kwargs))
        await finish([task], 20)
        kind, value = await outcome(task)
        check((kind, value) == ("ok", 1), "caller-gets-the-result",
              repr((kind, value)))
        check(len(seen) == 1, "sent-to-exactly-one-worker")
        func, a, k = seen[0]
        check(func is operator.add and tuple(a) == args and k == kwargs and
              list(map(type, a)) == list(map(type, args)),
              "request-carries-the-call", repr((a, k)))
        await end(world, pool)

    run(main())


def cancel_dead():
    """the task of a worker which has just died is cancelled"""
    async def main():
        world = World()
        pool = WorkerPool(1)
        await world.start(pool)
        world.abrupt = sym_bool("abrupt")
        world.plan = {0: (2, pick("how", ["death", "partial"])),
                      1: (1, "ok")}
        tasks = [call(pool, 0), call(pool, 1)]
        steps = choose("steps", 5)
        worker = world.workers[0]
        die = worker.die

        def dying():
            die()
            asyncio.ensure_future(late())

        async def late():
            await settle(steps)
            tasks[0].cancel()
            cover("cancelled-late")
        worker.die = dying
        if steps == 4:
            worker.die = lambda: (die(), tasks[0].cancel())
        await finish(tasks)
        kind, value = await outcome(tasks[0])
        check(kind == "cancelled" or isinstance(value, ProcessError),
              "cancelled-caller-is-cancelled", repr((kind, value)))
        await check_answer(world, 1, tasks[1])
        await still_serving(world, pool, 1)
        await end(world, pool)

    run(main())


def idle_death(workers=1, overflow=0, n=2):
    """a worker dies while it has nothing to do"""
    async def main():
        world = World()
        pool = WorkerPool(workers, overflow)
        await world.start(pool)
        world.abrupt = sym_bool("abrupt")
        world.workers[0].die()
        wait = pos_real("wait")
        assume(wait < 2)
        await asyncio.sleep(wait)
        world.plan = {i: (1, "ok") for i in range(n)}
        tasks = [call(pool, i) for i in range(n)]
        await finish(tasks)
        for i, t in enumerate(tasks):
            await check_answer(world, i, t)
        if wait > 0.5:
            cover("after-respawn")
        else:
            cover("before-respawn")
        await still_serving(world, pool, workers)
        await end(world, pool)

    run(main())


def scenarios(tier):
    t = tier == "thorough"
    few = ["ok", "error", "death"]
    out = [
        Scenario("answers", answers, dict(outcomes=few, n=4 if t else 3),
                 covers=["ok", "error", "death"]),
        Scenario("answers-one-worker", answers, dict(
            outcomes=["ok", "error", "death", "boom", "cancelled",
                      "partial"], n=2, workers=1),
                 covers=["boom", "cancelled", "partial"]),
        Scenario("cancel", cancel, dict(cancels=2 if t else 1, n=2),
                 covers=["cancelled-running", "cancelled-queued"]),
        Scenario("cancel-two-workers", cancel, dict(workers=2, n=3, cancels=2),
                 covers=["cancelled-running", "cancelled-queued"]),
        Scenario("cancel-iterations", cancel,
                 dict(fine=True, cancels=2 if t else 1),
                 covers=["cancelled-running", "cancelled-queued"]),
        Scenario("strangers", strangers, {}, covers=[
            "digest", "id", "no-auth", "initializer", "garbage", "gone",
            "cut", "stranger-when-idle"]),
        Scenario("initializer", initializer, {}, covers=["initializer"]),
        Scenario("close", close, {}, covers=[
            "closed-with-4", "closed-with-0", "closed-with-1"]),
        Scenario("close-two-workers", close, dict(workers=2, n=3)),
        Scenario("bad-payloads", bad_payloads, {},
                 covers=["unsendable", "unreadable"]),
        Scenario("idle-death", idle_death, {},
                 covers=["after-respawn", "before-respawn"]),
        Scenario("values", answers, dict(
            outcomes=list(VALUES) + ["stop", "key"], n=1, workers=1),
            covers=list(VALUES)),
        Scenario("values-two", answers, dict(
            outcomes=["none", "class", "ok", "key"], n=2, workers=1)),
        Scenario("calls", calls, {}),
        Scenario("cancel-dead", cancel_dead, {}, covers=["cancelled-late"]),
        Scenario("idle-death-overflow", idle_death, dict(
            workers=1, overflow=1, n=4)),
        Scenario("idle-death-two", idle_death, dict(workers=2)),
    ]
    return out
