"""
C20 -- aiomisc.log.ThreadedHandler with real logging.Logger objects in
simulated threads.  The thread to run after each blocking operation, bounded
preemptions at any line of aiomisc/log.py, the instants of logging calls and
of close are solver-chosen.
"""
import logging
import threading
import time

from symx.api import *

from aiomisc.log import ThreadedHandler

BOUNDS = {
    "quick": "2 logging threads with 2 records each, queues of 1, 2 and any "
             "number of records, buffered or not; flush intervals 0.1 and 1 "
             "s; a target which takes up to 3 s or fails; close (once or "
             "twice) at an arbitrary instant; one preemption at any line of "
             "aiomisc/log.py",
    "thorough": "3 records per thread, two preemptions",
}
ASSUMPTIONS = ["a thread runs between lines of aiomisc/log.py and blocking "
               "operations"]
OUTSIDE = ["the end of the interpreter (the thread is a daemon)",
           "a target which logs itself", "handlers which are never started"]


class Fail(Exception):
    pass


class Target(logging.Handler):
    def __init__(self, durations, fails):
        super().__init__()
        self.durations = durations
        self.fails = fails
        self.got = []       # (record, begin)
        self.ends = []
        self.threads = set()
        self.busy = False
        self.callers = set()

    def handle(self, record):
        i = len(self.got)
        check(not self.busy, "one-record-at-a-time")
        self.busy = True
        try:
            check(threading.current_thread() not in self.callers,
                  "target-runs-in-the-handlers-thread")
            self.got.append((record, stamp()))
            d = self.durations[i % len(self.durations)]
            if d:
                time.sleep(d)
            if i in self.fails:
                raise Fail(i)
        finally:
            self.busy = False
            self.ends.append(stamp())
        return True


_stamp = [0]


def stamp():
    _stamp[0] += 1
    return _stamp[0]


class Call:
    def __init__(self, msg):
        self.msg = msg
        self.begin = self.end = None
        self.took = None
        self.exc = None


def log(logger, call):
    call.begin = stamp()
    t = now()
    try:
        logger.info(call.msg)
    except Exception as e:
        call.exc = e
    call.took = now() - t
    call.end = stamp()


def make(target, buffered, size, flush):
    h = ThreadedHandler(target, flush_interval=flush, buffered=buffered,
                        queue_size=size)
    errors = []
    h.handleError = errors.append       # prints to stderr otherwise
    logger = logging.Logger("c20")
    logger.addHandler(h)
    before = set(sim().recs)
    h.start()
    mine = [r for r in sim().recs if r not in before]
    check(len(mine) == 1, "one-thread")
    return h, logger, mine[0]


def verdict(calls, target, size, buffered, closed_at=None, closed_end=None):
    """``closed_at``/``closed_end``: stamps around the first close"""
    order = {}
    for n, (r, at) in enumerate(target.got):
        msg = r.getMessage()
        check(msg not in order, "passed-exactly-once", msg)
        order[msg] = (n, at)
    known = {c.msg for c in calls}
    check(set(order) <= known, "only-what-was-logged")
    for c in calls:
        check(c.exc is None, "never-raises-into-the-caller", repr(c.exc))
    for c in calls:
        if closed_end is not None and c.begin > closed_end:
            continue            # came too late
        # a record is waiting until the target has got it
        waiting = [o for o in calls if o is not c and o.begin < c.end and
                   o.msg in order and order[o.msg][1] > c.begin]
        room = not size or len(waiting) < size
        maybe = closed_at is not None and c.end > closed_at
        if c.msg not in order and not maybe:
            check(not room and buffered, "nothing-is-lost", c.msg)
            cover("dropped")
        if room or buffered:
            check(c.took == 0, "does-not-wait-when-there-is-room",
                  "%s: %s" % (c.msg, c.took))
        elif bool(c.took > 0):
            cover("waited-for-room")
    for a in calls:
        for b in calls:
            if a.end < b.begin and a.msg in order and b.msg in order:
                check(order[a.msg][0] < order[b.msg][0],
                      "passed-in-the-order-of-acceptance")


def join(rec, seconds):
    """the thread has ended within some (virtual) seconds"""
    end = now() + seconds
    while not rec.done and bool(now() < end):
        time.sleep(0.5)
    return rec.done


def loggers(per, preempt, n=2):
    """logging from several threads, then close"""
    threads(preempt=preempt, lines=("aiomisc/log.py",) if preempt else None,
            free_choice=not preempt)
    buffered = bool(sym_bool("buffered"))
    size = pick("size", [0, 1, 2])
    flush = pick("flush", [0.1, 1])
    slow = pick("target", ["fast", "slow", "fails"])
    target = Target([0.25, 3] if slow == "slow" else [0],
                    {0, 2} if slow == "fails" else ())
    h, logger, rec = make(target, buffered, size, flush)
    gaps = [pick("gap%d" % i, [0, 0.15, 1.5]) for i in range(per)]
    calls = [[Call("%d/%d" % (i, j)) for j in range(per)] for i in range(n)]

    def work(i):
        target.callers.add(threading.current_thread())
        for c, gap in zip(calls[i], gaps):
            if gap and i == 0:
                time.sleep(gap)
            log(logger, c)

    ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
        check(not t.is_alive(), "logging-never-deadlocks")
    t = now()
    a = stamp()
    h.close()
    b = stamp()
    check(join(rec, 30), "thread-ends-when-closed")
    late = Call("late")
    log(logger, late)
    check(late.exc is None, "never-raises-into-the-caller", repr(late.exc))
    all_ = [c for cs in calls for c in cs]
    verdict(all_, target, size, buffered, a, b)
    check(len(target.ends) == len(target.got), "every-record-is-completed")
    cover("closed-after")


def closing(per, preempt):
    """closed while others log, maybe twice"""
    threads(preempt=preempt, lines=("aiomisc/log.py",) if preempt else None,
            free_choice=False)
    buffered = bool(sym_bool("buffered"))
    size = pick("size", [0, 1])
    flush = pick("flush", [0.5] if preempt else [0.1, 1])
    slow = bool(sym_bool("slow"))
    twice = pick("twice", [None, "after", "other"])
    target = Target([0.4] if slow else [0], ())
    h, logger, rec = make(target, buffered, size, flush)
    at = pick("when", [0, 0.3, 0.7]) if preempt else sym_real("at", 0, 2)
    gap = pick("gap", [0, 0.7])
    calls = [Call(str(j)) for j in range(per)]

    def work():
        target.callers.add(threading.current_thread())
        for c in calls:
            log(logger, c)
            if gap:
                time.sleep(gap)

    stamps = []
    errors = []

    def close():
        a = stamp()
        try:
            h.close()
        except Exception as e:
            errors.append(e)
        stamps.append((a, stamp()))

    def closer():
        time.sleep(at)
        close()

    ts = [threading.Thread(target=work), threading.Thread(target=closer)]
    if twice == "other":
        ts.append(threading.Thread(target=closer))
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
        check(not t.is_alive(), "logging-never-deadlocks")
    if twice == "after":
        # as logging.shutdown() does
        h.acquire()
        h.flush()
        close()
        h.release()
    check(not errors, "close-does-not-raise", repr(errors))
    check(join(rec, 30), "thread-ends-when-closed")
    first = min(a for a, b in stamps)
    verdict(calls, target, size, buffered, first, min(b for a, b in stamps))
    cover("closed-meanwhile")


def idle():
    """records reach the target without any further call"""
    flush = pick("flush", [0.1, 1, 5])
    buffered = bool(sym_bool("buffered"))
    use = pick("flushed", [False, True])
    at = [pick("at%d" % i, [0, 0.05, 2.0]) for i in range(2)]
    target = Target([0], ())
    h, logger, rec = make(target, buffered, 0, flush)
    calls = []
    for i, d in enumerate(at):
        time.sleep(d)
        c = Call(str(i))
        calls.append(c)
        log(logger, c)
        if use:
            h.flush()
        end = now() + 2 * flush + 0.01
        while len(target.got) < len(calls) and bool(now() < end):
            time.sleep(flush / 4)
        check(len(target.got) == len(calls), "passed-without-further-calls")
    verdict(calls, target, 0, buffered)
    h.close()
    check(join(rec, 30), "thread-ends-when-closed")
    cover("idle")


LEVELS = [5, 10, 20, 30, 40]


def levels(n):
    """a target with a level of its own gets what it asks for"""
    buffered = bool(sym_bool("buffered"))
    target = Target([0], ())
    target.setLevel(pick("target_level", [0, 10, 20, 30]))
    h, logger, rec = make(target, buffered, 0, 0.1)
    own = pick("handler_level", [0, 20])
    h.setLevel(own)
    logger.setLevel(1)
    want = []
    for i in range(n):
        level = pick("level%d" % i, LEVELS)
        logger.log(level, "%d", i)
        if level >= target.level and level >= own:
            want.append(str(i))
    time.sleep(1)
    got = [r.getMessage() for r, at in target.got]
    check(got == want, "passed-exactly-once", "%r: %r" % (got, want))
    h.close()
    check(join(rec, 30), "thread-ends-when-closed")
    cover("levels")


ERRORS = [Fail, KeyError, OSError, ValueError, RuntimeError, TypeError,
          AttributeError, UnicodeError, EOFError, StopIteration,
          RecursionError, ReferenceError, AssertionError, MemoryError]


def failing():
    """whatever the target raises"""
    kind = pick("error", ERRORS)
    target = Target([0], ())
    keep = target.handle

    def handle(record):
        keep(record)
        if record.getMessage() == "0":
            raise kind("target")
    target.handle = handle
    h, logger, rec = make(target, bool(sym_bool("buffered")), 0, 0.1)
    gap = pick("gap", [0, 1])
    calls = [Call(str(i)) for i in range(3)]
    for c in calls:
        log(logger, c)
        if gap:
            time.sleep(gap)
    time.sleep(1)
    verdict(calls, target, 0, True)
    h.close()
    check(join(rec, 30), "thread-ends-when-closed")
    cover("failing")


def scenarios(tier):
    t = tier == "thorough"
    per = 3 if t else 2
    both = ["dropped", "waited-for-room", "closed-after"]
    out = [
        Scenario("loggers", loggers, dict(per=per, preempt=0), covers=both),
        Scenario("loggers-preempt", loggers, dict(
            per=2 if t else 1, preempt=2 if t else 1),
            covers=["closed-after"]),
        Scenario("closing", closing, dict(per=per + 1, preempt=0),
                 covers=["closed-meanwhile"]),
        Scenario("closing-preempt", closing, dict(
            per=2, preempt=2 if t else 1), covers=["closed-meanwhile"]),
        Scenario("idle", idle, {}, covers=["idle"]),
        Scenario("levels", levels, dict(n=3 if t else 2), covers=["levels"]),
        Scenario("failing", failing, {}, covers=["failing"]),
    ]
    return out
