"""
C32 -- memory tracer, profiler and carbon sender.  The intervals, the instant
of the stop, how long a sending takes and the sizes which are reported are
symbolic; tracemalloc, the profiler of the interpreter and the carbon clients
are stand-ins which record what they are asked for.
"""
import asyncio
import cProfile
import concurrent.futures
import logging
import os
import re
import shutil
import tempfile
import tracemalloc

import aiocarbon.context
from aiocarbon.protocol.pickle import PickleClient
from aiocarbon.protocol.tcp import TCPClient
from aiocarbon.protocol.udp import UDPClient

from symx.api import *

BOUNDS = {
    "quick": "any interval and stop within 4 reports, any size below 1024^10, "
             "3 profiled functions in any order of their costs; sendings of "
             "any duration and outcome",
    "thorough": "up to 6 reports",
}
ASSUMPTIONS = ["making a report takes no time",
               "tracemalloc, cProfile and aiocarbon do what they are asked "
               "for"]
OUTSIDE = ["a report which is being made in a thread while the service is "
           "stopped", "what the profiler and tracemalloc measure"]


class Tracing:
    """stand-in for tracemalloc"""
    on = False
    inside = 0
    made = []
    diff = ()

    @classmethod
    def reset(cls):
        cls.on, cls.inside, cls.made, cls.diff = False, 0, [], ()


class Snapshot:
    def __init__(self):
        self.at = now()
        self.number = len(Tracing.made)
        Tracing.made.append(self)

    def __hash__(self):
        return self.number

    def compare_to(self, old, key_type, cumulative=False):
        check(self is Tracing.made[-1] and self is not Tracing.made[0],
              "the memory of now is reported")
        check(old is Tracing.made[0], "compared to the start")
        check(self.at == now(), "a fresh snapshot")
        check(key_type == Tracing.by, "grouped as asked for", key_type)
        check(not cumulative, "not cumulative")
        check(Tracing.inside, "made outside of the loop's thread")
        return list(Tracing.diff)


def take_snapshot():
    if not Tracing.on:
        raise RuntimeError("the tracemalloc module must be tracing memory "
                           "allocations to take a snapshot")
    return Snapshot()


def switch(on):
    def f(*args):
        Tracing.on = on
    return f


tracemalloc.start = switch(True)
tracemalloc.stop = switch(False)
tracemalloc.is_tracing = lambda: Tracing.on
tracemalloc.take_snapshot = take_snapshot


class Profile(cProfile.Profile):
    """stand-in for the profiler of the interpreter"""
    all = []
    table = {}
    __hash__ = object.__hash__

    def __init__(self, *a, **kw):
        self.on = False
        Profile.all.append(self)

    def enable(self, *a, **kw):
        self.on = True

    def disable(self):
        self.on = False

    def create_stats(self):
        self.disable()
        self.snapshot_stats()

    def snapshot_stats(self):
        self.stats = dict(Profile.table)


cProfile.Profile = Profile

from aiomisc.service.profiler import Profiler       # noqa: E402
from aiomisc.service.tracer import GroupBy, MemoryTracer    # noqa: E402
from aiomisc.service.carbon import CarbonSender     # noqa: E402

for name in "tracer", "profiler", "carbon":
    logging.getLogger("aiomisc.service." + name).propagate = False


class Immediate(concurrent.futures.ThreadPoolExecutor):
    """the default executor; its jobs take no time"""

    def submit(self, fn, *args, **kw):
        f = concurrent.futures.Future()
        f.set_running_or_notify_cancel()
        Tracing.inside += 1
        try:
            f.set_result(fn(*args, **kw))
        except BaseException as e:
            f.set_exception(e)
        finally:
            Tracing.inside -= 1
        return f

    def shutdown(self, *a, **kw):
        pass


class Trouble(logging.Handler):
    """what goes wrong in the periodic callbacks"""

    def __init__(self):
        super().__init__(logging.WARNING)
        self.records = []

    def emit(self, record):
        self.records.append(record)

    def __enter__(self):
        self.log = logging.getLogger("aiomisc.recurring")
        self.old = self.log.propagate
        self.log.propagate = False
        self.log.addHandler(self)
        return self

    def __exit__(self, *exc):
        self.log.removeHandler(self)
        self.log.propagate = self.old


class Num:
    """a number which remembers under which value it was written"""
    written = []

    def __init__(self, v):
        self.v = v

    @staticmethod
    def of(o):
        return o.v if isinstance(o, Num) else o

    def __hash__(self):
        return 0

    def __abs__(self):
        return Num(abs(self.v))

    def __neg__(self):
        return Num(-self.v)

    def __truediv__(self, o):
        return Num(self.v / Num.of(o))

    def __mul__(self, o):
        return Num(self.v * Num.of(o))

    __rmul__ = __mul__

    def __lt__(self, o):
        return self.v < Num.of(o)

    def __le__(self, o):
        return self.v <= Num.of(o)

    def __gt__(self, o):
        return self.v > Num.of(o)

    def __ge__(self, o):
        return self.v >= Num.of(o)

    def __eq__(self, o):
        return self.v == Num.of(o)

    def __bool__(self):
        return bool(self.v != 0)

    def __round__(self, n=None):
        return self

    def __float__(self):
        Num.written.append(self.v)
        return 700.0 + len(Num.written)

    def __format__(self, spec):
        return format(float(self), spec)


UNITS = ["", "Ki", "Mi", "Gi", "Ti", "Pi", "Ei", "Zi", "Yi"]
SIZE = re.compile(r"^(-?\d+\.\d)(|[KMGTPEZY]i)B$")


def size_of(text):
    """(number, unit) as written"""
    m = SIZE.match(text.strip())
    check(m is not None, "written as a size", text)
    number = float(m.group(1))
    unit = UNITS.index(m.group(2))
    if 700 < number <= 700 + len(Num.written):
        return Num.written[int(number) - 701], unit
    return number, unit


def right_size(text, value):
    number, unit = size_of(text)
    check(number * 1024 ** unit == value, "right size", (text, value))
    if unit:
        check(Or(number >= 1, number <= -1), "no larger unit than needed",
              text)
    if unit < 8:
        check(And(number < 1024, number > -1024), "large enough unit", text)


def rows(text):
    """the columns of every line"""
    lines = text.splitlines()
    check(bool(lines) and "Top memory usage" in lines[0], "titled")
    return [[c.strip() for c in line.split("|")] for line in lines[1:]
            if line.strip()]


def stat(i, size, size_diff):
    return tracemalloc.StatisticDiff(
        tracemalloc.Traceback((("file%d.py" % i, 10 + i),)),
        size, size_diff, 100 + i, 50 + i)


async def sizes(which, by):
    """one report with any numbers"""
    value = sym_real("size", -1 * 1024 ** 10, 1024 ** 10)
    n = choose("n", 4)
    top = pick("top", [1, 2, 20])
    loop = asyncio.get_running_loop()
    loop.set_default_executor(Immediate(1))
    at = choose("which", n) if n else 0
    Tracing.diff = []
    for i in range(n):
        pair = [512.0 + i, 100.5]
        if i == at:
            pair[which] = Num(value)
        Tracing.diff.append(stat(i, *pair))
    Tracing.by = by
    Num.written.clear()
    reports = []
    svc = MemoryTracer(interval=5, top_results=top, group_by=GroupBy(by),
                       logger=lambda msg, *a: reports.append(msg % a))
    svc.set_loop(loop)
    await svc.start()
    await asyncio.sleep(1)
    check(len(reports) == 1, "reported at the start", len(reports))
    await svc.stop()
    table = rows(reports[0])
    check(table[0] == ["Objects", "Obj.Diff", "Memory", "Mem.Diff",
                       "Traceback"], "heading", table[0])
    check(len(table) == 1 + min(n, top), "number of lines", len(table))
    for i, row in enumerate(table[1:]):
        s = Tracing.diff[i]
        check(row[:2] == [str(s.count), str(s.count_diff)], "counts", row)
        check(row[4] == str(s.traceback), "where it was allocated", row[4])
        for text, v in zip(row[2:4], (s.size, s.size_diff)):
            right_size(text, Num.of(v))
    cover("reported")


async def tracer(k):
    interval = sym_real("interval", 0, 100, strict=True)
    stop = sym_real("stop", 0, 1000)
    assume(stop < interval * k)
    loop = asyncio.get_running_loop()
    loop.set_default_executor(Immediate(1))
    fails = choose("fails", k + 1) - 1
    Tracing.diff = [stat(0, 10.0, 10.0)]
    Tracing.by = "lineno"
    at = []

    def logger(msg, *args):
        at.append(now())
        if len(at) == fails + 1:
            cover("a report failed")
            raise Err("logger")

    svc = MemoryTracer(interval=interval, logger=logger)
    svc.set_loop(loop)
    with Trouble() as trouble:
        begin = now()
        await svc.start()
        check(Tracing.on, "memory is traced")
        await asyncio.sleep(stop)
        check(Tracing.on, "memory is traced all the time")
        await svc.stop()
        check(now() == begin + stop, "stopped at once")
        reported(at, begin, interval, stop, k)
        check(len(trouble.records) == (1 if 0 <= fails < len(at) else 0),
              "failures are logged, nothing else fails",
              [r.getMessage() for r in trouble.records])
        before, quiet = len(at), len(trouble.records)
        shots = len(Tracing.made)
        await asyncio.sleep(2 * interval)
        check(len(at) == before, "nothing is reported after the stop")
        check(len(Tracing.made) == shots and len(
            trouble.records) == quiet, "nothing is tried after the stop")
        check(not Tracing.on, "memory is traced no more")


def reported(at, begin, interval, stop, k):
    """at the start and then every interval"""
    for i, t in enumerate(at):
        check(t == begin + i * interval, "reported at its time",
              (i, t, interval))
    if len(at) > 1:
        cover("several reports")
    check(stop <= len(at) * interval, "no report is left out",
          (len(at), interval, stop))
    check(len(at) <= k, "at most one report an interval", len(at))


class Reports(logging.Handler):
    def __init__(self, profiler):
        super().__init__()
        self.profiler, self.got = profiler, []

    def emit(self, record):
        text = record.getMessage()
        if "function calls" in text:
            self.got.append((now(), text))


FUNCS = [("/dir/one.py", 1, "alpha"), ("/dir/two.py", 2, "beta"),
         ("/dir/three.py", 3, "gamma")]
ORDERS = {"calls": 0, "time": 1, "cumulative": 2}


async def profiler(k, dumps):
    interval = sym_real("interval", 0, 100, strict=True)
    stop = sym_real("stop", 0, 1000)
    assume(stop < interval * k)
    order = pick("order", list(ORDERS)) if not dumps else "cumulative"
    top = pick("top", [1, 2, 10]) if not dumps else 10
    # the most expensive of the three under each order
    first = choose("first", 3)
    Profile.all.clear()
    Profile.table = {}
    for i, f in enumerate(FUNCS):
        rank = (i - first) % 3
        calls, time, total = 30 - rank, 3.0 + (rank + 1) % 3, \
            20.0 + (rank + 2) % 3
        Profile.table[f] = (calls, calls, time, total, {})
    loop = asyncio.get_running_loop()
    kw = {} if order == "cumulative" else {"order": order}
    directory = path = None
    if dumps:
        directory = tempfile.mkdtemp()
        path = os.path.join(directory, "stats")
        if dumps == "fails":
            path = os.path.join(directory, "no", "stats")
    try:
        svc = Profiler(interval=interval, top_results=top, path=path, **kw)
        svc.set_loop(loop)
        handler = Reports(svc)
        log = logging.getLogger("aiomisc.service.profiler")
        log.setLevel(logging.DEBUG)
        log.addHandler(handler)
        with Trouble() as trouble:
            try:
                begin = now()
                await svc.start()
                (p,) = Profile.all
                check(p.on, "profiling from the start")
                await asyncio.sleep(stop)
                check(p.on, "profiling goes on")
                if dumps == "works":
                    if stop > 0:
                        cover("dumped")
                        stats = __import__("pstats").Stats(path)
                        check(sorted(f[2] for f in stats.stats) == sorted(
                            f[2] for f in FUNCS), "everything is dumped")
                        os.unlink(path)
                await svc.stop()
                check(now() == begin + stop, "stopped at once")
                check(not p.on, "profiling ends")
                at = [t for t, _ in handler.got]
                reported(at, begin, interval, stop, k)
                check(len(trouble.records) == (
                    len(at) if dumps == "fails" else 0),
                    "failures are logged, nothing else fails",
                    [r.getMessage() for r in trouble.records])
                await asyncio.sleep(2 * interval)
                check(len(handler.got) == len(at),
                      "nothing is reported after the stop")
                check(not p.on, "it is not enabled again")
                check(not dumps or not os.path.exists(path),
                      "nothing is written after the stop")
            finally:
                log.removeHandler(handler)
    finally:
        if directory:
            shutil.rmtree(directory)
    expected = sorted(Profile.table, key=lambda f: -(
        Profile.table[f][(1, 2, 3)[ORDERS[order]]]))
    for _, text in handler.got:
        lines = [re.search(r"(\w+\.py):\d+\((\w+)\)", line)
                 for line in text.splitlines()]
        names = [m.group(2) for m in lines if m]
        check(names == [f[2] for f in expected][:top],
              "the most expensive in the order asked for", names)


CLIENTS = {"udp": UDPClient, "tcp": TCPClient, "pickle": PickleClient}


class Sending:
    made = []
    sends = []
    plan = []
    busy = 0


def client_init(self, host, port=2003, loop=None, storage=None,
                namespace=None):
    self.args = (host, port)
    self.sx_ns = namespace
    self._storage = storage
    Sending.made.append(self)


async def client_send(self):
    check(self is Sending.made[-1], "the client which was set up")
    check(not Sending.busy, "one sending at a time")
    n = len(Sending.sends)
    took, fails = Sending.plan[n] if n < len(Sending.plan) else (0, False)
    s = [now(), None]
    Sending.sends.append(s)
    Sending.busy += 1
    try:
        await asyncio.sleep(took)
        if fails:
            raise OSError("unreachable")
    finally:
        Sending.busy -= 1
        s[1] = now()


for c in CLIENTS.values():
    c.__init__ = client_init
    c.send = client_send


class Storage:
    def __init__(self):
        self.added = []

    def add(self, metric, **kw):
        self.added.append(metric)


def clean(part):
    """what is no letter, digit, dash or underscore becomes one underscore"""
    out = ""
    for c in part:
        if c.isalnum() or c in "-_":
            out += c
        elif not out.endswith("\0"):
            out += "\0"
    return out.replace("\0", "_").strip("_").lower()


async def carbon(k):
    interval = sym_real("interval", 0, 100, strict=True)
    stop = sym_real("stop", 0, 1000)
    assume(stop < interval * k)
    protocol = pick("protocol", list(CLIENTS))
    namespace = pick("namespace", [
        ("",), ("app",), ("My App", "host.example"), ("a..b", "_c_"),
        ("тест", "x-1"), ("..", "q")])
    Sending.made.clear()
    Sending.sends.clear()
    Sending.busy = 0
    Sending.plan = [(sym_real("took%d" % i, 0, 50), sym_bool("fails%d" % i))
                    for i in range(k)]
    loop = asyncio.get_running_loop()
    svc = CarbonSender(host="10.1.2.3", port=2103, protocol=protocol,
                       namespace=namespace, storage=Storage,
                       send_interval=interval)
    svc.set_loop(loop)
    with Trouble() as trouble:
        begin = now()
        await svc.start()
        check(len(Sending.made) == 1, "one client")
        c = Sending.made[0]
        check(type(c) is CLIENTS[protocol], "protocol", type(c))
        check(c.args == ("10.1.2.3", 2103), "address", c.args)
        check(c.sx_ns == ".".join(clean(n) for n in namespace),
              "namespace", c.sx_ns)
        check(type(c._storage) is Storage, "storage")
        check(aiocarbon.context.Meter.client_storage.get() is c,
              "metrics go to the client")
        await asyncio.sleep(stop)
        await svc.stop()
        check(now() == begin + stop, "stopped at once")
        check(not Sending.busy, "no sending is left")
        n = len(Sending.sends)
        at = begin
        for i, (b, e) in enumerate(Sending.sends):
            check(b == at, "sent at its time", (i, b, at))
            end = b + Sending.plan[i][0]
            check(e == smin(end, begin + stop), "sent entirely", (i, e))
            at = end + interval
        check(at >= begin + stop, "no sending is left out", at)
        if n > 1:
            cover("several sendings")
        failed = len(trouble.records)
        for i, (b, e) in enumerate(Sending.sends):
            took, fails = Sending.plan[i]
            if fails and i < n - 1:
                failed -= 1
        check(failed in (0, 1), "failures are logged, nothing else fails",
              failed)
        await asyncio.sleep(2 * interval)
        check(len(Sending.sends) == n, "nothing is sent after the stop")


def within(f):
    def scenario(**kw):
        Tracing.reset()
        return run(f(**kw))
    return scenario


def scenarios(tier):
    deep = tier == "thorough"
    k = 6 if deep else 4
    out = []
    for which in 0, 1:
        for by in "lineno", "filename", "traceback":
            out.append(Scenario("sizes %d %s" % (which, by), within(sizes),
                                dict(which=which, by=by),
                                covers=["reported"]))
    out.append(Scenario("tracer", within(tracer), dict(k=k),
                        covers=["several reports", "a report failed"]))
    for dumps in None, "works", "fails":
        out.append(Scenario(
            "profiler" + (" dump-" + dumps if dumps else ""),
            within(profiler), dict(k=k if dumps else 3, dumps=dumps),
            covers=["several reports"] + ["dumped"] * (dumps == "works")))
    out.append(Scenario("carbon", within(carbon), dict(k=k - 1),
                        covers=["several sendings"]))
    return out
