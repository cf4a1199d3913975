"""
C25 -- the Sentry transports.  aiohttp's session runs on a simulated
``_request``: its duration and the status of the response are symbolic; so
are the arrival times and the instant and timeout of the close.
"""
import asyncio
import logging
import threading

import aiohttp
from multidict import CIMultiDict
from raven.exceptions import APIError, RateLimited

from symx.api import *

from aiomisc.service import raven as R

BOUNDS = {
    "quick": "2 events (3 in fixed order of arrival) with any arrival times, "
             "durations of the posts, statuses 200..599, close instants and "
             "timeouts; 4 kinds of failures; queues of 1, 2 and 1000 places; "
             "1 or 2 workers; one event sent from a second thread with <= 2 "
             "preemptions",
    "thorough": "3 events with any arrival times, 3 preemptions",
}
ASSUMPTIONS = ["aiohttp's post() returns a response or raises"]
OUTSIDE = ["events of a transport whose loop is closed"]

LINES = ("raven.py",)


class Response:
    def __init__(self, status, headers):
        self.status = status
        self.headers = CIMultiDict(headers)
        self.released = 0

    def release(self):
        self.released += 1

    def close(self):
        self.released += 1

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.release()

    async def read(self):
        return b""


class World:
    current = None

    def __init__(self, plan):
        World.current = self
        self.plan = plan
        self.sessions = []
        self.posts = []
        self.responses = []

    async def request(self, method, url, **kw):
        data = kw.get("data")
        check(method == "POST", "posted")
        self.posts.append((str(url), data, dict(kw.get("headers") or {})))
        r = await self.plan(data)
        self.responses.append(r)
        return r


_init = aiohttp.ClientSession.__init__


def sx_init(self, *a, **kw):
    _init(self, *a, **kw)
    if World.current is not None:
        World.current.sessions.append((self, self.connector))


async def sx_request(self, method, url, **kw):
    if self.closed:
        raise RuntimeError("Session is closed")
    return await World.current.request(method, url, **kw)


aiohttp.ClientSession.__init__ = sx_init
aiohttp.ClientSession._request = sx_request


class Event:
    def __init__(self, i):
        self.i = i
        self.data = b"event %d" % i
        self.calls = []
        self.begun = self.done = False
        self.sent = self.late = False
        self.refuses = False

    def success(self):
        self.calls.append(("ok", None))
        if self.refuses:
            raise ValueError("callback of %d" % self.i)

    def failure(self, exc):
        self.calls.append(("failed", exc))
        if self.refuses:
            raise ValueError("errback of %d" % self.i)


KINDS = {
    "plain": lambda q, w: R.AioHttpTransport(),
    "plain-short": lambda q, w: R.AioHttpTransport(keepalive=False),
    "queued": lambda q, w: R.QueuedAioHttpTransport(qsize=q, workers=w),
    "queued-short": lambda q, w: R.QueuedAioHttpTransport(
        qsize=q, workers=w, keepalive=False),
    "keepalive": lambda q, w: R.QueuedKeepaliveAioHttpTransport(
        qsize=q, workers=w),
}
URL = "http://sentry.example/api/1/store/"
ERRORS = [OSError(5, "io"), aiohttp.ClientError("client"),
          asyncio.TimeoutError(), RuntimeError("odd"), Err("own")]


def sending(kind, n, times, qsize=1000, workers=1, timeout=False,
            refuses=False, statuses=False):
    events = [Event(i) for i in range(n)]
    at = [sym_real("a%d" % i, 0) for i in range(times)]
    at += at[-1:] * (n - times)
    T = sym_real("close", 0)
    limit = sym_real("timeout", 0) if timeout else None
    for e in events:
        e.at = at[e.i]
        e.d = sym_real("d%d" % e.i, 0)
        e.how = "ok"
        if statuses or refuses:
            e.how = pick("how%d" % e.i, ["ok", "status", "error"])
        if e.how == "status":
            e.status = sym_int("status%d" % e.i, 201, 599)
            e.headers = pick("headers%d" % e.i, [
                {}, {"x-sentry-error": "why"}, {"retry-after": "17"},
                {"Retry-After": "soon", "X-Sentry-Error": "why"}]) \
                if statuses else {}
        elif e.how == "error":
            e.error = ERRORS[choose("error%d" % e.i, len(ERRORS))] \
                if statuses else ERRORS[0]
        e.refuses = refuses and choose("refuses%d" % e.i, 2) == 1
    by_data = {e.data: e for e in events}
    state = {"closed": False}

    async def plan(data):
        e = by_data[data]
        check(not e.begun, "posted-at-most-once")
        check(not e.late, "nothing-is-posted-after-the-close")
        e.begun = True
        check(not state["closed"], "nothing-is-posted-after-the-close")
        await asyncio.sleep(e.d)
        e.done = True
        if e.how == "error":
            raise e.error
        if e.how == "status":
            return Response(e.status, e.headers)
        return Response(200, {})

    async def main():
        loop = asyncio.get_running_loop()
        world = World(plan)
        loop.set_exception_handler(lambda *a: None)
        t = KINDS[kind](qsize, workers)

        async def sender(e):
            await asyncio.sleep(e.at)
            e.late = state.get("closing", False)
            e.sent = True
            e.when = now()
            try:
                t.async_send(URL, e.data, {"k": "v"}, e.success, e.failure)
            except Exception as exc:
                if not e.refuses:
                    fail("sending-never-raises", repr(exc))
        tasks = [asyncio.ensure_future(sender(e)) for e in events]
        await asyncio.sleep(T)
        state["closing"] = True
        before = [e for e in events if e.sent]
        t0 = now()
        c = t.close(timeout=limit) if timeout else t.close()
        again = choose("again", 2)
        if again:
            await t.close()
            cover("repeated")
        await c
        state["closed"] = True
        took = now() - t0
        ended = {e.i: e.done for e in events}
        if timeout:
            check(took <= limit, "close-keeps-to-its-timeout")
        await t.close()
        await asyncio.gather(*tasks)
        await asyncio.sleep(1000)
        rest = asyncio.all_tasks() - {asyncio.current_task()}
        check(not rest, "every-worker-is-ended", repr(rest))
        for s, connector in world.sessions:
            check(s.closed and connector.closed, "session-is-released")
        check(all(r.released for r in world.responses),
              "session-is-released", "response")
        for e in events:
            check(len(e.calls) == 1, "exactly-one-callback",
                  "%d of %r: %r" % (e.i, kind, e.calls))
            (what, exc), = e.calls
            if e in before:
                if not timeout:
                    check(ended[e.i] or not e.done and not e.begun,
                          "close-waits-for-accepted-events")
                    if qsize >= n:
                        check(e.done, "close-waits-for-accepted-events",
                              repr(e.calls))
            else:
                check(e.when >= t0, "accepts-until-closed")
            if e.done and e.how == "ok":
                check(what == "ok", "success-after-an-accepted-post",
                      repr(exc))
                cover("accepted")
            else:
                check(what == "failed", "failure-otherwise")
                if not e.done:
                    check(isinstance(exc, Exception), "failure-otherwise")
                    cover("unsent" if not e.begun else "cut-off")
                elif e.how == "error":
                    check(exc is e.error, "the-matching-error", repr(exc))
                    cover("error")
                else:
                    bad_status(e, exc)
        cover("closed")
        check(len(world.posts) == sum(e.begun for e in events),
              "posted-at-most-once")
        for url, data, headers in world.posts:
            check(url == URL and headers.get("k") == "v", "posted")
    try:
        return run(main())
    finally:
        World.current = None


def bad_status(e, exc):
    check(isinstance(exc, APIError), "the-matching-error", repr(exc))
    check(exc.code == e.status, "the-matching-error", "code")
    h = CIMultiDict(e.headers)
    check(exc.message == h.get("x-sentry-error"), "the-matching-error",
          repr(exc.message))
    if isinstance(exc, RateLimited):
        check(e.status == 429, "the-matching-error", "not limited")
        want = 17 if h.get("retry-after") == "17" else 0
        check(exc.retry_after == want, "the-matching-error",
              repr(exc.retry_after))
        cover("rate-limited")
    else:
        check(e.status != 429, "the-matching-error", "rate limit")
        cover("refused")


def from_thread(kind, k):
    """an event comes from another thread while the transport is closed"""
    threads(preempt=k, lines=LINES)
    events = [Event(0), Event(1)]
    first = bool(sym_bool("first"))
    T = sym_real("close", 0)
    A = sym_real("a", 0)

    async def plan(data):
        e = events[int(data[-1:])]
        check(not e.begun, "posted-at-most-once")
        e.begun = True
        e.when = now()
        await asyncio.sleep(1)
        e.done = True
        return Response(200, {})

    async def main():
        import time
        world = World(plan)
        t = KINDS[kind](2, 1)

        def other():
            time.sleep(A)
            e = events[0]
            t.async_send(URL, e.data, {}, e.success, e.failure)
        th = threading.Thread(target=other)
        th.start()
        if first:
            e = events[1]
            t.async_send(URL, e.data, {}, e.success, e.failure)
        await asyncio.sleep(T)
        await t.close()
        rest = asyncio.all_tasks() - {asyncio.current_task()}
        check(not rest, "every-worker-is-ended", repr(rest))
        await asyncio.sleep(A + 1)
        th.join()
        await settle()
        for e in events[:1 + first]:
            check(len(e.calls) == 1, "exactly-one-callback", repr(e.calls))
            check((e.calls[0][0] == "ok") == e.done, "exactly-one-callback",
                  repr(e.calls))
            cover("sent" if e.done else "refused")
        if not first and A < T:
            check(events[0].begun and events[0].when == A,
                  "an-event-is-posted-at-once")
        for s, connector in world.sessions:
            check(s.closed and connector.closed, "session-is-released")
    try:
        return run(main())
    finally:
        World.current = None


def service(n):
    """what is logged while the service runs is posted"""
    level = pick("min", [0, 20, 30, 31, 50])
    filtered = choose("filter", 2)
    levels = [pick("level%d" % i, [10, 20, 30, 31, 50]) for i in range(n)]
    got = []

    async def plan(data):
        got.append(data)
        await asyncio.sleep(1)
        return Response(200, {})

    class NoBad(logging.Filter):
        def filter(self, record):
            return "bad" not in record.getMessage()

    async def main():
        World(plan)
        root = logging.getLogger()
        before = list(root.handlers)
        saved = root.level
        root.setLevel(1)
        logging.getLogger("asyncio").setLevel(100)
        logging.getLogger("raven").setLevel(100)
        logging.getLogger("aiomisc").setLevel(100)
        try:
            s = R.RavenSender(
                sentry_dsn="http://u:p@sentry.example/1", min_level=level,
                filters=[NoBad()] if filtered else [],
                client_options={"install_sys_hook": False,
                                "install_logging_hook": False,
                                "auto_log_stacks": False})
            s.set_loop(asyncio.get_running_loop())
            log = logging.getLogger("some.app")
            await s.start()
            want = 0
            for i, v in enumerate(levels):
                bad = choose("bad%d" % i, 2)
                log.log(int(v), "bad record" if bad else "record")
                if v >= level and not (bad and filtered):
                    want += 1
            await s.stop()
            check(len(got) == want, "logged-events-are-posted",
                  "%d of %d" % (len(got), want))
            log.log(60, "late record")
            await asyncio.sleep(5)
            check(len(got) == want, "nothing-is-posted-after-the-close")
            check(root.handlers == before, "handler-is-removed")
            check("u:p" not in str(s.sentry_dsn), "secret-is-dropped")
            cover("posted" if want else "nothing")
        finally:
            root.setLevel(saved)
            root.handlers[:] = before
            for x in "asyncio", "raven", "aiomisc":
                logging.getLogger(x).setLevel(0)
    try:
        return run(main())
    finally:
        World.current = None


def scenarios(tier):
    t = tier == "thorough"
    out = []
    for kind in KINDS:
        kw = dict(kind=kind, n=3 if t else 2, times=3 if t else 2)
        cv = ["accepted", "unsent", "closed", "repeated"]
        out += [
            Scenario("order-" + kind, sending, kw, covers=cv),
            Scenario("timeout-" + kind, sending, dict(kw, timeout=True),
                     covers=cv + ["cut-off"]),
            Scenario("status-" + kind, sending, dict(
                kind=kind, n=1, times=1, statuses=True),
                covers=["accepted", "error", "refused", "rate-limited"]),
            Scenario("callbacks-" + kind, sending, dict(
                kind=kind, n=2, times=1, refuses=True),
                covers=["accepted", "error", "closed"]),
            Scenario("thread-" + kind, from_thread, dict(
                kind=kind, k=3 if t else 2), covers=["sent", "refused"]),
        ]
        if "plain" not in kind:
            for q, w in ((1, 1), (2, 1), (1, 2), (1000, 2)):
                for limited in False, True:
                    out.append(Scenario(
                        "queue-%s-%d-%d%s" % (
                            kind, q, w, "-timeout" if limited else ""),
                        sending, dict(kind=kind, n=3, times=2 if t else 1,
                                      qsize=q, workers=w, timeout=limited),
                        covers=["accepted", "unsent", "closed"]))
    out.append(Scenario("service", service, dict(n=2),
                        covers=["posted", "nothing"]))
    return out
